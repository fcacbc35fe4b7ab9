SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS SeenAsSpecified SettersReplace InWords Chrono
CONSTANTS
  Years = {1980, 1981, 1999, 2000, 2044, 2100, 2107}
  Minutes = {0, 1, 2, 29, 30, 31, 58, 59}
  MaxSet = 3
