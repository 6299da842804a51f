SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
ALIAS TraceAlias
CHECK_DEADLOCK FALSE
