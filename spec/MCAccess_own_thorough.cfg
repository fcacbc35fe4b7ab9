SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Independent
CONSTANTS
  Kind = "own"
  Sizes = {0, 1, 2}
  MaxOps = 7
