SPECIFICATION Spec
INVARIANTS Between Ends Reach Living BornBefore
PROPERTIES MoreClasses Nested
CHECK_DEADLOCK FALSE
CONSTANTS Top = 6 MaxClasses = 2
CONSTANT Dists = {0, 1, 2, 3}
