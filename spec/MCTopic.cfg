SPECIFICATION Spec
CONSTANTS MaxTmpl = 4
          MaxName = 3
INVARIANTS FindsFirst Apart Placed
CHECK_DEADLOCK FALSE
