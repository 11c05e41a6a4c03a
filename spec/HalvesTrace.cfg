SPECIFICATION TraceSpec
CONSTANT Weak = FALSE
POSTCONDITION TraceReport
CHECK_DEADLOCK FALSE
