----------------------------- MODULE Filtration -----------------------------
(* Design of the cochain layer.  A Rips complex grows by one edge at a time    *)
(* (the scale increases); a cochain on its edges is set edge by edge.  In      *)
(* every state the numbering of simplices is one to one, the coboundary        *)
(* operators compose to zero, lifting keeps residues, and a mod-p cocycle      *)
(* lifts to an integer cochain whose coboundary is divisible by p.             *)
EXTENDS Simplices

CONSTANTS N, P

VARIABLES E, c     \* edges present; cochain mod P on all pairs, zero off E
vars == <<E, c>>

Zero == [i \in 1..N |-> [j \in 1..N |-> 0]]
Put(M, e, x) == [M EXCEPT ![e[1] + 1][e[2] + 1] = x, ![e[2] + 1][e[1] + 1] = -x]

Init == E = {} /\ c = Zero
AddEdge == \E e \in Pairs(N) \ E : \E x \in 0..(P - 1) :
              /\ \A f \in E : Index(f) < Index(e)      \* canonical order of growth
              /\ E' = E \cup {e}
              /\ c' = Put(c, e, x)
Spec == Init /\ [][AddEdge]_vars

T == RipsTriangles(N, E)
Q == RipsTetra(N, E, T)
Lifted == [i \in 1..N |-> [j \in 1..N |-> IF i < j THEN Lift(c[i][j], P)
                                          ELSE IF j < i THEN -Lift(c[j][i], P) ELSE 0]]

TypeOK == E \subseteq Pairs(N)
NumberingBijective == \A d \in 0..Min2(N - 1, 3) :
    {Index(s) : s \in Simplices(N, d)} = 0 .. (Cardinality(Simplices(N, d)) - 1)
NumberingIsColex == \A d \in 0..2 : \A s, t \in Simplices(N, d) : Index(s) < Index(t) <=> ColexLess(s, t)
(* the coboundary of a coboundary vanishes on every tetrahedron *)
D1asCochain == [t \in T |-> D1(c, t)]
CoboundarySquaredZero == \A s \in Q :
    D1asCochain[<<s[2], s[3], s[4]>>] - D1asCochain[<<s[1], s[3], s[4]>>]
    + D1asCochain[<<s[1], s[2], s[4]>>] - D1asCochain[<<s[1], s[2], s[3]>>] = 0
LiftSymmetric == \A e \in E : LET x == Lifted[e[1] + 1][e[2] + 1]
                              IN /\ 2 * Abs(x) <= P /\ (x - c[e[1] + 1][e[2] + 1]) % P = 0
                                 /\ (x = 0 <=> c[e[1] + 1][e[2] + 1] = 0)
LiftDivisible == IsCocycle1Mod(c, T, P) => \A t \in T : D1(Lifted, t) % P = 0
(* any two integer lifts of the same cochain differ by P times a cochain        *)
SignsAlternate == \A s \in Triples(N) : \A q \in {<<s[1], s[2], s[3]>>, <<s[1], s[3], s[2]>>, <<s[2], s[1], s[3]>>,
                        <<s[2], s[3], s[1]>>, <<s[3], s[1], s[2]>>, <<s[3], s[2], s[1]>>} :
                        D1(c, q) = Sign(q) * D1(c, s)
=============================================================================
