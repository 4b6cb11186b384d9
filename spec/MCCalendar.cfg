SPECIFICATION Spec
CONSTANTS Before = 719528
          FromYear = 0
          To = 2932896
INVARIANTS Inv
CHECK_DEADLOCK FALSE
