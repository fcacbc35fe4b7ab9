SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS ReservedBounded HeldBounded WorkBounded InRange AreaInRange
PROPERTIES Ends
CONSTANTS
  Size = 8
  Hdr = 2
  Big16 = 6
  Big64 = 20
  Hint = 4
