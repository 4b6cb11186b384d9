SPECIFICATION Spec
CONSTANTS
  Names = {1}
  Depth = 3
  MaxActs = 7
  ByName = FALSE
  RootAgain = TRUE
  WatchFirst = TRUE
INVARIANT Complete
CHECK_DEADLOCK FALSE
