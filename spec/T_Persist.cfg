SPECIFICATION TraceSpec
CONSTANT Judge <- MyJudge
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
