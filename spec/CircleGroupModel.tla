--------------------------- MODULE CircleGroupModel ---------------------------
(* Two maps on two points of the circle Z/M under every sequence of rotations and  *)
(* integer combinations: the maps are at all times the accumulated combination of   *)
(* the first ones plus the accumulated rotation.                                    *)
EXTENDS CircleGroup, Json
CONSTANTS M, MaxLen
VARIABLES first, maps, mat, rot, hist
vars == <<first, maps, mat, rot, hist>>

Mats == << <<<<1, 1>>, <<0, 1>>>>, <<<<0, 1>>, <<1, 0>>>>, <<<<1, 0>>, <<0, -1>>>>, <<<<2, -1>>, <<1, 1>>>>, <<<<-3, 2>>, <<0, 0>>>> >>
Init == /\ first \in [1..2 -> [1..2 -> 0..(M - 1)]]
        /\ maps = first /\ mat = Identity(2) /\ rot = <<0, 0>> /\ hist = <<>>
Rotate(k, s) == /\ maps' = [maps EXCEPT ![k] = Off(@, s, M)]
                /\ rot' = [rot EXCEPT ![k] = (@ + s) % M]
                /\ hist' = Append(hist, <<"offset", k, s>>)
                /\ UNCHANGED <<first, mat>>
Combine(m) == /\ maps' = Comb(maps, Mats[m], M)
              /\ mat' = MatMul(Mats[m], mat)
              /\ rot' = [r \in 1..2 |-> Sum(1..2, LAMBDA k : Mats[m][r][k] * rot[k]) % M]
              /\ hist' = Append(hist, <<"combine", m, 0>>)
              /\ UNCHANGED first
Next == Len(hist) < MaxLen /\ ((\E k \in 1..2 : \E s \in 1..(M - 1) : Rotate(k, s)) \/ \E m \in DOMAIN Mats : Combine(m))
Spec == Init /\ [][Next]_vars
Ledger == maps = [r \in 1..2 |-> Off(Comb(first, mat, M)[r], rot[r], M)]
(* shifting the inputs by whole turns shows nowhere                                  *)
Residues == \A r, i \in 1..2 : maps[r][i] \in 0..(M - 1)
Bands == \A n \in 1..3 : \A a \in 0..(M - 1) : Band(a, n, M) = Band(a + M, n, M) /\ Climb(a, n, M) \in 0..M
Emit == first # [k \in 1..2 |-> [i \in 1..2 |-> 0]] \/ Len(hist) < MaxLen \/ PrintT("HISTORY " \o ToJson(hist))
=============================================================================
