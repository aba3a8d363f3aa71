------------------------------- MODULE HopfModel -------------------------------
(* On a full tetrahedron: for every integer cocycle c and every connection nu,     *)
(* with curvature eta = U c - d nu, the vector of phases written from one ball is  *)
(* that written from another up to a common phase, at every point; the curvature   *)
(* is closed and what an edge cochain contributes does not change surfaces.        *)
EXTENDS Hopf
CONSTANTS U, K
VARIABLES c, N, Eta, once         \* the cocycle, the connection and the curvature as tables
vars == <<c, N, Eta, once>>
V == 0..3
Tri == <<<<0, 1, 2>>, <<0, 1, 3>>, <<0, 2, 3>>, <<1, 2, 3>>>>
Cochains == [1..4 -> (-K)..K]
IsClosed(w) == w[4] - w[3] + w[2] - w[1] = 0
AsTable(w) == FromTwo(4, [t \in Range(Tri) |-> w[CHOOSE i \in 1..4 : Tri[i] = t]])
E6 == <<<<0, 1>>, <<0, 2>>, <<0, 3>>, <<1, 2>>, <<1, 3>>, <<2, 3>>>>
Edges(w) == Table1(4, [i \in 1..6 |-> <<E6[i][1], E6[i][2], w[i]>>])
Curvature(w, M) == AsTable([i \in 1..4 |-> U * w[i] - Curl(M, Tri[i])])
(* weights in units of one quarter                                                *)
Parts == {w \in [V -> 0..4] : w[0] + w[1] + w[2] + w[3] = 4}
Phase(phi, i, j) == At(N, i, j) * 4 + phi[0] * At3(Eta, i, j, 0) + phi[1] * At3(Eta, i, j, 1) + phi[2] * At3(Eta, i, j, 2) + phi[3] * At3(Eta, i, j, 3)

Init == /\ c \in Cochains /\ IsClosed(c)
        /\ N \in {Edges(w) : w \in [1..6 -> 0..(U - 1)]}
        /\ Eta = Curvature(c, N) /\ once = FALSE
(* adding an edge cochain to the class, or whole turns to the connection, changes nothing that is seen *)
Regauge == \E e \in 1..6 : \E s \in {-1, 1} :
              LET d == [i \in 1..6 |-> IF i = e THEN s ELSE 0]
                  c2 == [i \in 1..4 |-> c[i] + Curl(Edges(d), Tri[i])]
              IN /\ \A i \in 1..4 : Abs(c2[i]) <= K
                 /\ c' = c2
                 /\ N' = [i \in 1..4 |-> [j \in 1..4 |-> N[i][j] + U * Edges(d)[i][j]]]
                 /\ \A i, j \in 1..4 : Abs(N'[i][j]) <= 2 * U
                 /\ Eta' = Curvature(c2, N')
Next == ~once /\ once' = TRUE /\ Regauge
Spec == Init /\ [][Next]_vars

Closed == Div3(Eta, <<0, 1, 2, 3>>) = 0
ChartFree == \A phi \in Parts : \A b1, b2 \in V : (b1 < b2 /\ phi[b1] > 0 /\ phi[b2] > 0) =>
                \A i \in 1..3 : ((Phase(phi, i, b1) - Phase(phi, i, b2)) - (Phase(phi, 0, b1) - Phase(phi, 0, b2))) % (4 * U) = 0
SphereSum == LET sphere == <<<<1, 2, 3, 1>>, <<0, 2, 3, -1>>, <<0, 1, 3, 1>>, <<0, 1, 2, -1>>>>
             IN Boundary(4, sphere) = [i \in 1..4 |-> [j \in 1..4 |-> 0]] /\ OnChain(Eta, sphere) = 0
Unseen == [][Eta' = Eta]_vars
=============================================================================
