SPECIFICATION Spec
CONSTANTS N = 3 Diag = {1, 2, 3} Off <- Narrow
INVARIANTS SameLattice Progress Reduced Short
PROPERTIES Descends Ends
CHECK_DEADLOCK FALSE
