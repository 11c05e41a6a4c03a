SPECIFICATION TraceSpec
VIEW TraceView
CONSTANT Slots = {0, 1, 2, 3}
INVARIANT IntTypeOK
PROPERTIES RejectedHasNoEffect OneElementPerCall
POSTCONDITION TraceReport
CHECK_DEADLOCK FALSE
