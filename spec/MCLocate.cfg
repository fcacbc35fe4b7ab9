SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS FoundTheLast GaveUpRightly ArchiveFound
PROPERTIES Terminates
CONSTANTS
  MaxFile = 7
  Window = 4
  Fixed = 1
  MaxCmt = 2
