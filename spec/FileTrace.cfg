SPECIFICATION TraceSpec
INVARIANTS Report
CHECK_DEADLOCK FALSE
