------------------------------- MODULE Lattice -------------------------------
(* Gram-Schmidt data of a basis given by its Gram matrix, in fixed point:        *)
(* G in units of 10^-4, coefficients mu in units of 10^-4.                       *)
EXTENDS IntMatrix

Div(a, b) == LET s == IF (a < 0) # (b < 0) THEN -1 ELSE 1 IN s * ((Abs(a) + Abs(b) \div 2) \div Abs(b))
(* rows r[i][j], j <= i, with r[i][j] = <b_i, b_j*> ; mu[i][j] = r[i][j] / r[j][j] *)
RECURSIVE GSRows(_, _, _)
GSRow(G, rows, i) ==
    LET step(acc, j) == Append(acc, G[i][j] - Sum(1..(j - 1),
                           LAMBDA k : Div(acc[k] * Div(10000 * (IF j = i THEN acc[k] ELSE rows[j][k]), rows[k][k]), 10000)))
    IN FoldLeft(step, <<>>, [j \in 1..i |-> j])
GSRows(G, rows, i) == IF i > Len(G) THEN rows ELSE GSRows(G, Append(rows, TLCEval(GSRow(G, rows, i))), i + 1)
GS(G) == GSRows(G, <<>>, 1)
Mu(R, i, j) == Div(10000 * R[i][j], R[j][j])

Independent(R) == \A i \in DOMAIN R : R[i][i] > 0
SizeReduced(R, tol) == \A i \in DOMAIN R : \A j \in 1..(i - 1) : Abs(Mu(R, i, j)) <= 5000 + tol
Exchange(R, tol) == \A i \in 2..Len(R) :
    R[i][i] * 10 >= (Max2(0, 7500 - Div(Mu(R, i, i - 1) * Mu(R, i, i - 1), 10000)) * (R[i - 1][i - 1] \div 10)) \div 100 - tol
(* fixed point Gram matrix in 10^-5 of a reduced basis; large ones at less resolution *)
Reduced(G5, r) ==
    LET top == MaxOf({Abs(G5[a][b]) : a, b \in 1..r})
        f == IF top > 20000000 THEN 1000 ELSE IF top > 2000000 THEN 100 ELSE 10
        R == TLCEval(GS([a \in 1..r |-> [b \in 1..r |-> Div(G5[a][b], f)]]))
    IN top < 200000000 /\ Independent(R) /\ SizeReduced(R, 150) /\ Exchange(R, 600)
=============================================================================
