SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS TextsKept NeverInvalid OthersKept OneEach NothingStale SizesTrue AsSpecified
CONSTANTS
  MaxGen = 2
  MaxExtra = 1
  Vals = {0, 9}
  Offs = {0, 10}
