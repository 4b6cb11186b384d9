SPECIFICATION MCSpec
CONSTANTS
  Procs = {1, 2}
  MaxLog = 3
  MaxCalls = 3
INVARIANTS NothingLost OnlyFirstIfEmpty InvWatch
PROPERTIES WatchForward
CHECK_DEADLOCK FALSE
