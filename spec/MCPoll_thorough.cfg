SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OffsetCounts HashIsAccepted ListedIntact InOrder DirectoryWhole Deterministic
PROPERTIES Terminates
CONSTANTS
  MaxEntries = 3
  MaxData = 3
  HeaderLen = 2
  MaxFaults = 2
  MaxPend = 1
