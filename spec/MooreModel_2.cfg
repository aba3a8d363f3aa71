SPECIFICATION Spec
INVARIANTS Unmoved Symmetric Faithful Shorter Bounds
CONSTANTS Q = 2 Rings = 4 Spokes = 24
