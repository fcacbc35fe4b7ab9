SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS ReservedBounded HeldBounded WorkBounded InRange AreaInRange
PROPERTIES Ends
CONSTANTS
  Size = 16
  Hdr = 2
  Big16 = 12
  Big64 = 60
  Hint = 4
