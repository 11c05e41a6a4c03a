SPECIFICATION TraceSpec
CONSTANT Weak = TRUE
POSTCONDITION TraceReport
CHECK_DEADLOCK FALSE
