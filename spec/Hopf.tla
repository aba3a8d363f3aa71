--------------------------------- MODULE Hopf ---------------------------------
(* Maps to complex projective space given by a connection nu on the edges and a   *)
(* curvature eta on the triangles of a complex, U units per turn.                *)
EXTENDS Cover

(* antisymmetric tables: T2[i+1][j+1][k+1]                                        *)
Table3(n, f(_, _, _)) == [i \in 1..n |-> [j \in 1..n |-> [k \in 1..n |-> f(i - 1, j - 1, k - 1)]]]
FromTwo(n, c) == TLCEval(Table3(n, LAMBDA i, j, k : IF i = j \/ j = k \/ i = k THEN 0 ELSE Val2(c, <<i, j, k>>)))
At3(T, i, j, k) == T[i + 1][j + 1][k + 1]

(* coboundary of an edge cochain, and of a triangle cochain                       *)
Curl(nu, t) == At(nu, t[1], t[2]) + At(nu, t[2], t[3]) - At(nu, t[1], t[3])
Div3(T, s) == At3(T, s[2], s[3], s[4]) - At3(T, s[1], s[3], s[4]) + At3(T, s[1], s[2], s[4]) - At3(T, s[1], s[2], s[3])

(* phase of the i-th entry against the j-th at a point with weights phi (in 10^-4): *)
Against(nu, eta, phi, i, j) ==
    At(nu, i, j) + Sum(DOMAIN phi, LAMBDA k : LET x == At3(eta, i, j, k) IN IF x < 0 THEN -Mul4(phi[k], -x) ELSE Mul4(phi[k], x))
(* the i-th entry as written from the ball of landmark j                           *)
FromBall(nu, eta, phi, i, j) == IF i = j THEN 0 ELSE Against(nu, eta, phi, i, j)

(* boundary of a chain of weighted triangles <<i, j, k, w>> as an edge table       *)
Boundary(n, ch) ==
    LET put(M, i, j, w) == [M EXCEPT ![i + 1][j + 1] = @ + w, ![j + 1][i + 1] = @ - w]
    IN FoldLeft(LAMBDA M, x : put(put(put(M, x[1], x[2], x[4]), x[2], x[3], x[4]), x[3], x[1], x[4]),
                [i \in 1..n |-> [j \in 1..n |-> 0]], ch)
OnChain(T, ch) == FoldLeft(LAMBDA s, x : s + x[4] * At3(T, x[1], x[2], x[3]), 0, ch)
=============================================================================
