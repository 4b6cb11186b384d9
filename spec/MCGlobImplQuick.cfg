SPECIFICATION Spec
CONSTANTS MaxP = 4
          MaxS = 5
INVARIANTS Right
CHECK_DEADLOCK FALSE
PROPERTY Ends
