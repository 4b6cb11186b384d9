SPECIFICATION MCSpec
CONSTANTS
  Listeners = {1}
  Callers = {1, 2}
  Levels = {0, 2, 4}
  MaxMsg = 3
INVARIANTS InOrder Severe All
CHECK_DEADLOCK FALSE
