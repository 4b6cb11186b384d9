SPECIFICATION Spec
CONSTANTS
  Names = {1, 2}
  Targets = {1, 2, 3, 5}
  Modes = {"rw", "ro"}
  Follow = FALSE
INVARIANT Right
CHECK_DEADLOCK FALSE
