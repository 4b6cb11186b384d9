SPECIFICATION MCSpec
CONSTANTS
  Listeners = {1}
  Callers = {1}
  Levels = {0, 3}
  MaxMsg = 3
INVARIANTS InOrder Severe All
CHECK_DEADLOCK FALSE
