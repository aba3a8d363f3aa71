------------------------------ MODULE Reduction ------------------------------
(* Equivariant reduction of unit vectors: repeatedly keep the principal          *)
(* directions and renormalise.  Vectors are sequences of <<re, im>> in 10^-4.    *)
EXTENDS Num

Unit == 10000
(* a * b in units of 10^-4, for entries of at most about 2 *)
Re(a, b) == (a[1] * b[1] + a[2] * b[2]) \div Unit          \* real part of a times conj(b)
Im(a, b) == (a[2] * b[1] - a[1] * b[2]) \div Unit
Inner(x, y) == << FoldLeft(LAMBDA s, i : s + Re(x[i], y[i]), 0, [i \in DOMAIN x |-> i]),
                  FoldLeft(LAMBDA s, i : s + Im(x[i], y[i]), 0, [i \in DOMAIN x |-> i]) >>
Times(a, b) == << (a[1] * b[1] - a[2] * b[2]) \div Unit, (a[1] * b[2] + a[2] * b[1]) \div Unit >>
Conj(a) == <<a[1], -a[2]>>
Small(a, tol) == Abs(a[1]) <= tol /\ Abs(a[2]) <= tol
Close(a, b, tol) == Near(a[1], b[1], tol) /\ Near(a[2], b[2], tol)
Usable(x) == \A i \in DOMAIN x : Abs(x[i][1]) <= 2 * Unit /\ Abs(x[i][2]) <= 2 * Unit

(* how many directions are left after each step, from d down to k = m + 1        *)
RECURSIVE Halving(_, _)
Halving(k, h) == IF h <= 0 THEN <<>> ELSE <<k + h>> \o Halving(k, h \div 2)
Schedule(mode, d, k) ==
    IF d <= k THEN <<>>
    ELSE CASE mode = "direct" -> <<k>>
           [] mode = "one-by-one" -> [i \in 1..(d - k) |-> d - i]
           [] mode = "exponential" -> LET h == Halving(k, (d - k) \div 2)
                                      IN h \o (IF h # <<>> /\ h[Len(h)] = k THEN <<>> ELSE <<k>>)

(* W is an orthonormal basis of eigenvectors of the mean second moment of F, with *)
(* eigenvalues lam in decreasing order (each in 10^-4)                           *)
Orthonormal(W, tol) == \A i, j \in DOMAIN W : i <= j => Close(Inner(W[i], W[j]), <<IF i = j THEN Unit ELSE 0, 0>>, tol)
Moment(F, w) == LET a == TLCEval([q \in DOMAIN F |-> Inner(w, F[q])])
                IN [i \in DOMAIN w |-> << FoldLeft(LAMBDA s, q : s + Times(a[q], F[q][i])[1], 0, [q \in DOMAIN F |-> q]) \div Len(F),
                                          FoldLeft(LAMBDA s, q : s + Times(a[q], F[q][i])[2], 0, [q \in DOMAIN F |-> q]) \div Len(F) >>]
Scale(x, s) == IF Abs(x) > 10500 \/ Abs(s) > 200000 THEN Inf ELSE (x * s) \div Unit
Eigen(F, W, lam, tol) ==
    /\ \A i \in 1..(Len(W) - 1) : lam[i] >= lam[i + 1] - tol
    /\ \A i \in DOMAIN W : LET mw == Moment(F, W[i])
                           IN \A t \in DOMAIN mw : /\ Near(mw[t][1], Scale(W[i][t][1], lam[i]), tol)
                                                   /\ Near(mw[t][2], Scale(W[i][t][2], lam[i]), tol)

(* one step of the reduction, with witnesses: basis W, eigenvalues lam, kept k,   *)
(* lengths r of the projections, and the renormalised points G                   *)
Step(F, W, lam, k, r, G, tol) ==
    /\ Orthonormal(W, tol)
    /\ Eigen(F, W, lam, tol)
    /\ \A q \in DOMAIN F : \A i \in 1..k :
          LET c == Inner(F[q], W[i])       \* coordinate of the point along the i-th direction
          IN Close(c, <<Scale(G[q][i][1], r[q]), Scale(G[q][i][2], r[q])>>, 2 * tol)
    /\ \A q \in DOMAIN G : Len(G[q]) = k /\ Near(Inner(G[q], G[q])[1], Unit, tol)

(* pairs of points to compare: all of them, or those with the first few when there are many *)
Anchored(N, q) == N <= 40 \/ q <= 8
SameInner(F, G, tol) == \A q, s \in DOMAIN F : (q < s /\ Anchored(Len(F), q)) => Close(Inner(F[q], F[s]), Inner(G[q], G[s]), tol)
=============================================================================
