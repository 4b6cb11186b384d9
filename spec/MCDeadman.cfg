SPECIFICATION Spec
CONSTANTS Procs = {1, 2, 3}
          Handles = {1, 2}
          MaxOps = 2
          MaxDeaths = 1
          Ops = {"try", "lock", "unlock", "waitlk", "waitun", "state", "shutdown"}
INVARIANTS OneOwner OwnerAlive DiedOnlyFree TokensDistinct Truthful Stuck
PROPERTIES EndsRightly
CHECK_DEADLOCK FALSE
