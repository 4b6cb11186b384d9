SPECIFICATION Spec
CONSTANTS
  Names = {1, 2}
  Targets = {1, 5}
  Modes = {"rw"}
  Follow = FALSE
INVARIANT Right
CHECK_DEADLOCK FALSE
