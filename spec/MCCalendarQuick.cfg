SPECIFICATION Spec
CONSTANTS Before = 36524
          FromYear = 1870
          To = 109574
INVARIANTS Inv
CHECK_DEADLOCK FALSE
