SPECIFICATION Spec
CONSTANTS Procs = {1, 2}
          Handles = {1, 2}
          MaxOps = 3
          MaxDeaths = 1
          Ops = {"try", "lock", "unlock", "waitlk", "waitun", "state", "shutdown"}
INVARIANTS OneOwner OwnerAlive DiedOnlyFree TokensDistinct Truthful Stuck
PROPERTIES EndsRightly Served Seen
CHECK_DEADLOCK FALSE
