------------------------------ MODULE MooreModel ------------------------------
(* Two points of the Moore space of q on a polar grid; the steps turn both, or      *)
(* change a boundary point's representative.                                       *)
EXTENDS Spaces
CONSTANTS Q, Rings, Spokes
VARIABLES x, y, before
vars == <<x, y, before>>
Grid == {<<0, 0>>} \cup ((1..Rings) \X (0..(Spokes - 1)))
Angle(p) == p[2] * (Turn \div Spokes)
Place(p) == <<(Cos4(Angle(p)) * p[1]) \div Rings, (Sin4(Angle(p)) * p[1]) \div Rings>>
Far(a, b) == MooreDistance(Place(a), Angle(a), Place(b), Angle(b), Q)
Same(a, b) == a = b \/ (a[1] = Rings /\ b[1] = Rings /\ (Q * (a[2] - b[2])) % Spokes = 0)
Turned(p, k) == IF p[1] = 0 THEN p ELSE <<p[1], (p[2] + k) % Spokes>>

Init == x \in Grid /\ y \in Grid /\ before = Far(x, y)
TurnBoth == x' = Turned(x, 1) /\ y' = Turned(y, 1) /\ UNCHANGED before
Other == x[1] = Rings /\ x' = Turned(x, Spokes \div Q) /\ UNCHANGED <<y, before>>
Next == TurnBoth \/ Other
Spec == Init /\ [][Next]_vars

Unmoved == Near(Far(x, y), before, 6)
Symmetric == Near(Far(x, y), Far(y, x), 4)
Faithful == Same(x, y) <=> Far(x, y) <= 50
Shorter == Far(x, y) <= Dist4(Place(x), Place(y))
(* at most through the centre of the boundary, and never nearer than the radii allow *)
Bounds == Far(x, y) <= 2 * One4 /\ Far(x, y) >= Abs(Norm4(Place(x)) - Norm4(Place(y))) - 6
=============================================================================
