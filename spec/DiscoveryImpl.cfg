SPECIFICATION Spec
CONSTANTS
  Names = {1, 2}
  Depth = 2
  MaxActs = 6
  ByName = FALSE
  RootAgain = TRUE
  WatchFirst = TRUE
INVARIANT Complete
CHECK_DEADLOCK FALSE
