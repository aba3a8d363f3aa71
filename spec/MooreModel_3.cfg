SPECIFICATION Spec
INVARIANTS Unmoved Symmetric Faithful Shorter Bounds
CONSTANTS Q = 3 Rings = 4 Spokes = 24
