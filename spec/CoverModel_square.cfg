SPECIFICATION Spec
CONSTRAINT Bounded
INVARIANTS AnyBall Followed Winds
PROPERTY Continuous
CONSTANTS NV = 4 Shape = "square" U = 4 W = 3 Far = 2
CONSTANT Taus = {0, 1}
CONSTANT Vals = {0, 1, 2}
