SPECIFICATION Spec
CONSTANTS N = 5 M = 3 Dup = FALSE
INVARIANTS Nonincreasing Cover Separated RepeatOnlyAtZero Distinct TraceJudgeAgrees
CHECK_DEADLOCK FALSE
