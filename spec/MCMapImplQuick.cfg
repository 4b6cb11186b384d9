SPECIFICATION Spec
CONSTANTS K = {1, 2, 3, 4, 5}
          V = {1}
          H = {0, 1, 3, 7}
INVARIANTS NoDuplicates Distances NoGaps Ordered FindsAll
PROPERTY Refines
CHECK_DEADLOCK FALSE
