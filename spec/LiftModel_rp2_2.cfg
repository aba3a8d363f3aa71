SPECIFICATION Spec
INVARIANTS Residues Divisible Defect Used NotBoth
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANT Shape = "rp2"
CONSTANT P = 2
