SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Conforms InSync OwnData NoFalseEnd BeforeCutDelivered RightErrors
CONSTANTS
  MaxEntries = 2
  MaxData = 2
  Faults = TRUE
