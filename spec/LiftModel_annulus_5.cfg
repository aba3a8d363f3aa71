SPECIFICATION Spec
INVARIANTS Residues Divisible Defect Used NotBoth
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANT Shape = "annulus"
CONSTANT P = 5
