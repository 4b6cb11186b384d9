SPECIFICATION Spec
CONSTANTS p1 = p1
          p2 = p2
          p3 = p3
          Procs = {p1, p2, p3}
          Nobody = Nobody
          MaxCalls = 3
          MaxDeaths = 2
SYMMETRY Same
INVARIANTS Exclusive Survives Known Told Woken Queues
CHECK_DEADLOCK FALSE
