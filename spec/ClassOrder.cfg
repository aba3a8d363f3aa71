SPECIFICATION Spec
INVARIANTS SortedSoFar OneToOne Aligned
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANTS Data = 4 Marks = 3 MaxClasses = 3
CONSTANT Times = {0, 1, 2}
