SPECIFICATION FSpec
POSTCONDITION TraceAccepted
ALIAS TraceAlias
CHECK_DEADLOCK FALSE
