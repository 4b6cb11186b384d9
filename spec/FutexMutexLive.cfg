SPECIFICATION Live
CONSTANTS p1 = p1
          p2 = p2
          Procs = {p1, p2}
          Nobody = Nobody
          MaxCalls = 3
          MaxDeaths = 1
PROPERTIES Ends
CHECK_DEADLOCK FALSE
