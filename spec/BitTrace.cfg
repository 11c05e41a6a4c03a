SPECIFICATION TraceSpec
VIEW TraceView
CONSTANT Slots = {0, 1, 2, 3}
INVARIANTS StoreTypeOK SplitDisjoint
PROPERTIES RejectedHasNoEffect OneBitPerCall SharedIsReadOnly
POSTCONDITION TraceReport
CHECK_DEADLOCK FALSE
