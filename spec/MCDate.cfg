SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS SeenAsSpecified SettersReplace InWords Chrono
CONSTANTS
  Years = {1980, 1999, 2000, 2107}
  Minutes = {0, 1, 30, 59}
  MaxSet = 2
