SPECIFICATION Spec
CONSTANTS N = 4 M = 2 Dup = TRUE
INVARIANTS Nonincreasing Cover Separated RepeatOnlyAtZero Distinct TraceJudgeAgrees
CHECK_DEADLOCK FALSE
