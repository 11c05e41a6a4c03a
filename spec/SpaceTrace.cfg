SPECIFICATION TraceSpec
VIEW TraceView
POSTCONDITION TraceReport
CHECK_DEADLOCK FALSE
