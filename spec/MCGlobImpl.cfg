SPECIFICATION Spec
CONSTANTS MaxP = 5
          MaxS = 5
INVARIANTS Right
CHECK_DEADLOCK FALSE
