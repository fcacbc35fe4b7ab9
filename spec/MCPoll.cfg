SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OffsetCounts HashIsAccepted ListedIntact InOrder DirectoryWhole Deterministic
PROPERTIES Terminates
CONSTANTS
  MaxEntries = 2
  MaxData = 2
  HeaderLen = 2
  MaxFaults = 1
  MaxPend = 1
