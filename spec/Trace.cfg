SPECIFICATION TraceSpec
INVARIANT Report
CHECK_DEADLOCK FALSE
