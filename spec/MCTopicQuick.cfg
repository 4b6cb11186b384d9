SPECIFICATION Spec
CONSTANTS MaxTmpl = 3
          MaxName = 2
INVARIANTS FindsFirst Apart Placed
CHECK_DEADLOCK FALSE
