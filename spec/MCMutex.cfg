SPECIFICATION Spec
CONSTANTS Procs = {1, 2, 3}
          MaxOps = 2
          MaxDeaths = 1
INVARIANTS Consistent DeathPending Truthful
PROPERTIES OnlyHolder
CHECK_DEADLOCK FALSE
