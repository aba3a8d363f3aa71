SPECIFICATION Spec
CONSTANTS q = 5 M = 10 K = 1
INVARIANTS LensFaithful HopfSphere HopfFaithful HopfEqual
PROPERTIES Unmoved UnmovedHopf
CHECK_DEADLOCK FALSE
