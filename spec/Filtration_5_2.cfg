SPECIFICATION Spec
CONSTANTS N = 5 P = 2
INVARIANTS TypeOK NumberingBijective NumberingIsColex CoboundarySquaredZero LiftSymmetric LiftDivisible SignsAlternate
CHECK_DEADLOCK FALSE
