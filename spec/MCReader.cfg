SPECIFICATION Spec
CONSTANTS Readers = {1}
          MaxWrites = 4
          MaxOps = 4
          Threads = {TRUE, FALSE}
INVARIANTS Bounds Sane InOrder FromStart NoGap
PROPERTIES Silent CloseReturns
CHECK_DEADLOCK FALSE
