SPECIFICATION TraceSpec
CONSTRAINT Mark
POSTCONDITION AcceptedHW
CHECK_DEADLOCK FALSE
