SPECIFICATION TraceSpec
VIEW TraceView
PROPERTY AskingIsPure
POSTCONDITION TraceReport
CHECK_DEADLOCK FALSE
