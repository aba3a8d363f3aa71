------------------------------- MODULE Greedy -------------------------------
(* The sampler as a state machine, over every metric with distances in 1..M    *)
(* on N points (0 allowed: duplicate points).                                   *)
EXTENDS GreedyOps

CONSTANTS N, M, Dup

VARIABLES T, chosen, radii
vars == <<T, chosen, radii>>

Pts == 0 .. (N - 1)
Upper == {e \in Pts \X Pts : e[1] < e[2]}
Table(w) == [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN 0
                             ELSE IF i < j THEN w[<<i - 1, j - 1>>] ELSE w[<<j - 1, i - 1>>]]]
Triangle(D) == \A i, j, k \in 1..N : D[i][k] <= D[i][j] + D[j][k]

Init == /\ \E w \in [Upper -> (IF Dup THEN 0 ELSE 1)..M] : T = Table(w)
        /\ Triangle(T)
        /\ chosen = <<0>> /\ radii = <<>>
Choose(i) == /\ CanChoose(T, Range(chosen), i, 0)
             /\ radii' = Append(radii, DistTo(T, Range(chosen), i))
             /\ chosen' = Append(chosen, i)
             /\ UNCHANGED T
Next == Len(chosen) < N /\ \E i \in Pts : Choose(i)
Spec == Init /\ [][Next]_vars

Nonincreasing == \A k \in 1..(Len(radii) - 1) : radii[k + 1] <= radii[k]
(* the chosen points cover everything within the next radius and are separated by the last one *)
Cover == \A k \in 1..Len(radii) : \A j \in Pts : DistTo(T, Prefix(chosen, k), j) <= radii[k]
Separated == \A k \in 1..Len(radii) : \A i, j \in Prefix(chosen, k + 1) : i # j => Dist(T, i, j) >= radii[k]
(* a point is only repeated when nothing is left to add *)
RepeatOnlyAtZero == \A k \in 1..Len(radii) : chosen[k + 1] \in Prefix(chosen, k) => radii[k] = 0
Distinct == ~Dup => Cardinality(Range(chosen)) = Len(chosen)
TraceJudgeAgrees == /\ IsGreedy(T, chosen, 0)
                    /\ \A k \in 1..Len(chosen) : \A j \in Pts : Distances(T, chosen)[k][j + 1] = DistTo(T, Prefix(chosen, k), j)
=============================================================================
