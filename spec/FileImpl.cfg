SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  MaxFaults = 1
  MaxDeaths = 1
  MaxRemoves = 1
INVARIANTS Whole Same Complete Nothing Leftover
PROPERTY Ends
CHECK_DEADLOCK FALSE
