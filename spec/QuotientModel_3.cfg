SPECIFICATION Spec
CONSTANTS q = 3 M = 12 K = 1
INVARIANTS LensFaithful HopfSphere HopfFaithful HopfEqual
PROPERTIES Unmoved UnmovedHopf
CHECK_DEADLOCK FALSE
