SPECIFICATION Spec
CONSTANTS Params = {"perc", "class", "bump", "range", "check", "dim", "mode"} MaxLen = 4 Keyed = {"perc", "class", "bump", "range", "check", "dim", "mode"}
INVARIANTS FreshAnswers MemoryIsRight Emit
CHECK_DEADLOCK FALSE
