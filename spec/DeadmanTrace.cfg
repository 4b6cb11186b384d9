SPECIFICATION TraceSpec
CONSTANT Procs = {1, 2, 3, 4, 5, 6, 7, 8}
CONSTANT Handles = {1, 2, 3, 4, 5, 6, 7, 8}
INVARIANTS Report
CHECK_DEADLOCK FALSE
