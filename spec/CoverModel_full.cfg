SPECIFICATION Spec
CONSTRAINT Bounded
INVARIANTS AnyBall Followed Winds
PROPERTY Continuous
CONSTANTS NV = 4 Shape = "full" U = 3 W = 4 Far = 2
CONSTANT Taus = {0, 2}
CONSTANT Vals = {0, 1}
