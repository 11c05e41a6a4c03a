SPECIFICATION TraceSpec
VIEW TraceView
PROPERTY SharedIsConstant
POSTCONDITION TraceReport
CHECK_DEADLOCK FALSE
