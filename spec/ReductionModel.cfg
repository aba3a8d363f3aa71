SPECIFICATION Spec
CONSTANTS D = 6
INVARIANTS NeverTooFar Done Logarithmic
PROPERTIES Shrinks Ends
CHECK_DEADLOCK FALSE
