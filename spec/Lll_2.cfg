SPECIFICATION Spec
CONSTANTS N = 2 Diag = {1, 2, 3} Off <- Wide
INVARIANTS SameLattice Progress Reduced Short
PROPERTIES Descends Ends
CHECK_DEADLOCK FALSE
