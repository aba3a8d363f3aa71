SPECIFICATION Spec
CONSTANTS MaxLen = 3 Sizes = {1, 5}
INVARIANTS WhereTheyBelong AllDrawnOnce ReplaysTheSame Emit
PROPERTIES OneAxesPerCall
CHECK_DEADLOCK FALSE
