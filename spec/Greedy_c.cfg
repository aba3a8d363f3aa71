SPECIFICATION Spec
CONSTANTS N = 5 M = 2 Dup = FALSE
INVARIANTS Nonincreasing Cover Separated RepeatOnlyAtZero Distinct TraceJudgeAgrees
CHECK_DEADLOCK FALSE
