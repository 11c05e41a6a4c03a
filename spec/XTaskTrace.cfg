SPECIFICATION TraceSpec
VIEW TraceView
PROPERTIES OnlyProfilesVanish CleanIsLast FailureIsReported
POSTCONDITION TraceReport
CHECK_DEADLOCK FALSE
