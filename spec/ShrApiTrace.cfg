SPECIFICATION TraceSpec
INVARIANT Consistent
CHECK_DEADLOCK FALSE
