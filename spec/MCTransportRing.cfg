SPECIFICATION MCSpec
CONSTANTS Procs = {1}
          Handles = {1}
          Sizes = {0, 8, 30}
          ArenaSizes = {272, 320}
          MaxSeq = 4
          WithWait = FALSE
INVARIANTS LogsWellFormed SuffixOfHistory CleanWhenFree CursorSane
PROPERTIES Monotone OnlyHolderWrites
CHECK_DEADLOCK FALSE
