SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS FoundTheLast GaveUpRightly ArchiveFound
PROPERTIES Terminates
CONSTANTS
  MaxFile = 8
  Window = 5
  Fixed = 2
  MaxCmt = 2
