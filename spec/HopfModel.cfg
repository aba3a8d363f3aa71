SPECIFICATION Spec
CONSTANTS U = 2 K = 1
INVARIANTS Closed ChartFree SphereSum
PROPERTIES Unseen
CHECK_DEADLOCK FALSE
