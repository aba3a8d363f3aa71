--------------------------- MODULE ReductionModel ---------------------------
(* The three schedules as a state machine, on data lying along coordinate axes    *)
(* with different populations: a step keeps the most populated of the axes left.  *)
EXTENDS Reduction
CONSTANTS D
VARIABLES mode, pop, goal, kept, left, steps
vars == <<mode, pop, goal, kept, left, steps>>

Perms(d) == {f \in [1..d -> 1..d] : \A i, j \in 1..d : i # j => f[i] # f[j]}
Init == /\ mode \in {"direct", "exponential", "one-by-one"}
        /\ \E d \in 1..D : pop \in Perms(d) /\ goal \in 1..d
        /\ kept = DOMAIN pop
        /\ left = Schedule(mode, Cardinality(DOMAIN pop), goal)
        /\ steps = 0
Top(S, k) == {a \in S : Cardinality({b \in S : pop[b] > pop[a]}) < k}
Next == /\ left # <<>>
        /\ kept' = Top(kept, Head(left))
        /\ left' = Tail(left)
        /\ steps' = steps + 1
        /\ UNCHANGED <<mode, pop, goal>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Shrinks == [][Cardinality(kept') < Cardinality(kept)]_vars
NeverTooFar == Cardinality(kept) >= goal
Done == left = <<>> => kept = Top(DOMAIN pop, goal)
Logarithmic == mode = "exponential" => 2 ^ steps <= 4 * Cardinality(DOMAIN pop)
Ends == <>(left = <<>>)
=============================================================================
