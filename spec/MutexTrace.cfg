SPECIFICATION TraceSpec
CONSTANT Procs = {1, 2, 3, 4, 5, 6}
INVARIANTS Report Consistent
CHECK_DEADLOCK FALSE
