SPECIFICATION MCSpec
CONSTANTS Procs = {1, 2, 3}
          Handles = {1, 2}
          Sizes = {8}
          ArenaSizes = {272}
          MaxSeq = 3
          WithWait = TRUE
INVARIANTS LogsWellFormed SuffixOfHistory CleanWhenFree NoStuckWaiter
PROPERTIES Monotone OnlyHolderWrites
CHECK_DEADLOCK FALSE
