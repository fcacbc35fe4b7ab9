SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS AsSpecified TrueSizes DecodingAgrees
PROPERTIES Terminates
CONSTANTS
  MaxEntries = 2
  Rich = TRUE
