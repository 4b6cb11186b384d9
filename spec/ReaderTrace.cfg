SPECIFICATION TraceSpec
CONSTANT Readers = {1, 2, 3, 4, 5, 6}
INVARIANTS Report
CHECK_DEADLOCK FALSE
