------------------------------ MODULE CoverModel ------------------------------
(* A data point moving in the cover: its weights move from ball to ball in steps  *)
(* of 1/W, always on a simplex of the landmark complex.  For every integer        *)
(* cocycle c and every value tau at the landmarks, the changes along edges are     *)
(* theta = U c + d tau; the point's coordinate is read from the first ball that   *)
(* contains it.  It does not depend on the ball, it changes by no more than the    *)
(* edge allows per step, and around a loop it winds as often as c says.            *)
EXTENDS CircleMaps

CONSTANTS NV, Shape, U, W, Taus, Vals, Far

VARIABLES E, c, tau, phi, total, hol, last
vars == <<E, c, tau, phi, total, hol, last>>

Shapes == [square |-> {<<0, 1>>, <<1, 2>>, <<2, 3>>, <<0, 3>>},
           kite |-> {<<0, 1>>, <<1, 2>>, <<0, 2>>, <<2, 3>>},
           wheel |-> {<<0, 1>>, <<1, 2>>, <<2, 3>>, <<0, 3>>, <<0, 2>>},
           full |-> {<<0, 1>>, <<1, 2>>, <<2, 3>>, <<0, 3>>, <<0, 2>>, <<1, 3>>}]
V == Vertices(NV)
Rows(s, f) == [i \in 1..Len(s) |-> <<s[i][1], s[i][2], f[s[i]]>>]
Support(w) == {v \in V : w[v] > 0}
Simplex(S) == \A a, b \in S : a < b => <<a, b>> \in E
Pure(v) == [x \in V |-> IF x = v THEN W ELSE 0]

Theta == TLCEval([i \in 1..NV |-> [j \in 1..NV |-> IF i = j THEN 0 ELSE U * c[i][j] + tau[j] - tau[i]]])
(* W times the value, from ball j *)
From(j, w) == W * tau[j + 1] + Sum(Support(w), LAMBDA k : w[k] * At(Theta, j, k))
Value(w) == From(MinOf(Support(w)), w) % (U * W)

Init == /\ E = Shapes[Shape]
        /\ \E f \in [E -> Vals] : c = Table1(NV, Rows(SetToSeq(E), f))
        /\ IsCocycle1(c, RipsTriangles(NV, E))
        /\ tau \in [1..NV -> Taus]
        /\ phi = Pure(0) /\ last = 0 /\ total = W * tau[1]
        /\ hol = 0
(* one unit of weight goes from ball a to ball b *)
Move(a, b) ==
    LET w == [phi EXCEPT ![a] = @ - 1, ![b] = @ + 1]
    IN /\ phi[a] > 0 /\ a # b /\ Simplex(Support(w) \cup Support(phi))
       /\ phi' = w
       /\ total' = total + At(Theta, a, b)
       /\ last' = MinOf(Support(w))
       /\ hol' = hol + At(c, last, last')
       /\ UNCHANGED <<E, c, tau>>
Next == \E a, b \in V : Move(a, b)
Spec == Init /\ [][Next]_vars
Bounded == Abs(hol) <= Far

AnyBall == \A i, j \in Support(phi) : (From(i, phi) - From(j, phi)) % (U * W) = 0
(* the coordinate followed along the way is the coordinate *)
Followed == (total - Value(phi)) % (U * W) = 0
Continuous == [][\A a, b \in V : phi' # phi =>
                 Abs(Centered(Value(phi') - Value(phi), U * W)) <= MaxOf({Abs(At(Theta, i, j)) : i, j \in V})]_vars
(* at a landmark, the way followed is the cocycle on the path, up to the values there *)
Winds == \A v \in V : phi = Pure(v) => total = W * tau[v + 1] + U * W * hol
=============================================================================
