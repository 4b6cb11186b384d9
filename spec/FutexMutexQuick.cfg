SPECIFICATION Spec
CONSTANTS p1 = p1
          p2 = p2
          p3 = p3
          Procs = {p1, p2, p3}
          Nobody = Nobody
          MaxCalls = 2
          MaxDeaths = 1
SYMMETRY Same
INVARIANTS Exclusive Survives Known Told Woken Queues
CHECK_DEADLOCK FALSE
