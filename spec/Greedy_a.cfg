SPECIFICATION Spec
CONSTANTS N = 4 M = 3 Dup = FALSE
INVARIANTS Nonincreasing Cover Separated RepeatOnlyAtZero Distinct TraceJudgeAgrees
CHECK_DEADLOCK FALSE
