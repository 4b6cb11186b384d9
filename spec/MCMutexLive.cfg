SPECIFICATION Spec
CONSTANTS Procs = {1, 2}
          MaxOps = 3
          MaxDeaths = 1
INVARIANTS Consistent DeathPending Truthful
PROPERTIES OnlyHolder Granted
CHECK_DEADLOCK FALSE
