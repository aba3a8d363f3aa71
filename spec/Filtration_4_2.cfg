SPECIFICATION Spec
CONSTANTS N = 4 P = 2
INVARIANTS TypeOK NumberingBijective NumberingIsColex CoboundarySquaredZero LiftSymmetric LiftDivisible SignsAlternate
CHECK_DEADLOCK FALSE
