SPECIFICATION Spec
CONSTANTS M = 3 MaxLen = 3
INVARIANTS Ledger Residues Bands Emit
CHECK_DEADLOCK FALSE
