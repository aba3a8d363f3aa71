SPECIFICATION Spec
INVARIANTS Residues Divisible Defect Used NotBoth
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANT Shape = "tetra"
CONSTANT P = 3
