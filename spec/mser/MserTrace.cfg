SPECIFICATION TraceSpec
INVARIANT Report
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
