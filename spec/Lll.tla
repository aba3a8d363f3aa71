---------------------------------- MODULE Lll ----------------------------------
(* Lattice reduction of the classes' Gram form, step by step, in exact integer      *)
(* arithmetic.  A basis is a sequence of integer vectors; D[i] is the determinant    *)
(* of the Gram matrix of the first i of them, Lam(i, j) = mu_ij D[j].                *)
EXTENDS IntMatrix, TLC

CONSTANTS N, Diag, Off      \* all bases that are upper triangular with these entries
Wide == -7..7
Narrow == {-3, -1, 0, 2, 3}

VARIABLES start, basis, change, k, j, phase
vars == <<start, basis, change, k, j, phase>>

DotI(x, y) == Sum(DOMAIN x, LAMBDA i : x[i] * y[i])
Gram(B, m) == [a \in 1..m |-> [b \in 1..m |-> DotI(B[a], B[b])]]
D(B, m) == IF m = 0 THEN 1 ELSE Det(Gram(B, m))
(* Gram matrix of the first c, with row c replaced by the products with vector i      *)
Lam(B, i, c) == Det([a \in 1..c |-> [b \in 1..c |-> IF a = c THEN DotI(B[i], B[b]) ELSE DotI(B[a], B[b])]])

(* the nearest integer to x/d, d > 0, halves to the even one                          *)
Nearest(x, d) == LET q == x \div d r == x % d
                 IN IF 2 * r < d \/ (2 * r = d /\ q % 2 = 0) THEN q ELSE q + 1
Minus(v, c, w) == [i \in DOMAIN v |-> v[i] - c * w[i]]
Unit(i) == [a \in 1..N |-> IF a = i THEN 1 ELSE 0]

Pairs == {p \in (1..N) \X (1..N) : p[1] > p[2]}
Init == /\ start \in [d : [1..N -> Diag], o : [Pairs -> Off]]
        /\ basis = [i \in 1..N |-> [a \in 1..N |-> IF a = i THEN start.d[i] ELSE IF a < i THEN start.o[<<i, a>>] ELSE 0]]
        /\ change = [i \in 1..N |-> Unit(i)]
        /\ k = 2 /\ j = 1 /\ phase = "reduce"

Reduce == /\ phase = "reduce"
          /\ LET lam == Lam(basis, k, j)
                 d == D(basis, j)
                 c == IF 2 * Abs(lam) > d THEN Nearest(lam, d) ELSE 0
             IN /\ basis' = [basis EXCEPT ![k] = Minus(@, c, basis[j])]
                /\ change' = [change EXCEPT ![k] = Minus(@, c, change[j])]
          /\ IF j = 1 THEN phase' = "swap" /\ j' = j ELSE phase' = phase /\ j' = j - 1
          /\ UNCHANGED <<start, k>>
Lovasz(B, i) == 4 * (D(B, i) * D(B, i - 2) + Sq(Lam(B, i, i - 1))) >= 3 * Sq(D(B, i - 1))
Strict(B, i) == 4 * (D(B, i) * D(B, i - 2) + Sq(Lam(B, i, i - 1))) > 3 * Sq(D(B, i - 1))
Advance == /\ phase = "swap" /\ Strict(basis, k)
           /\ IF k = N THEN phase' = "done" /\ UNCHANGED <<k, j>>
              ELSE k' = k + 1 /\ j' = k /\ phase' = "reduce"
           /\ UNCHANGED <<start, basis, change>>
Swap == /\ phase = "swap" /\ ~Strict(basis, k)
        /\ basis' = [basis EXCEPT ![k] = basis[k - 1], ![k - 1] = basis[k]]
        /\ change' = [change EXCEPT ![k] = change[k - 1], ![k - 1] = change[k]]
        /\ k' = Max2(k - 1, 2) /\ j' = Max2(k - 1, 2) - 1 /\ phase' = "reduce"
        /\ UNCHANGED start
Next == Reduce \/ Advance \/ Swap
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Combination(c) == [a \in 1..N |-> Sum(1..N, LAMBDA i : c[i] * (IF a = i THEN start.d[i] ELSE IF a < i THEN start.o[<<i, a>>] ELSE 0))]
SameLattice == Abs(Det(change)) = 1 /\ \A i \in 1..N : basis[i] = Combination(change[i])
SizeReduced(m) == \A i \in 1..m, c \in 1..N : c < i => 2 * Abs(Lam(basis, i, c)) <= D(basis, c)
(* everything before k is reduced already                                              *)
Progress == SizeReduced(k - 1) /\ \A i \in 2..(k - 1) : Lovasz(basis, i)
Reduced == phase = "done" => SizeReduced(N) /\ \A i \in 2..N : Lovasz(basis, i)
(* no vector of the lattice is much shorter than the first one                         *)
Short == phase = "done" => \A c \in [1..N -> -2..2] : (\E i \in 1..N : c[i] # 0) =>
           LET v == [a \in 1..N |-> Sum(1..N, LAMBDA i : c[i] * basis[i][a])]
           IN DotI(basis[1], basis[1]) <= 2 ^ (N - 1) * DotI(v, v)
(* why it ends: a swap makes the product of the determinants smaller by a quarter      *)
Potential(B) == IF N = 2 THEN D(B, 1) ELSE D(B, 1) * D(B, 2)
Descends == [][/\ phase = "reduce" => Potential(basis') = Potential(basis)
               /\ (phase = "swap" /\ phase' = "reduce" /\ k' <= k /\ basis' # basis) => 4 * Potential(basis') <= 3 * Potential(basis)]_vars
Ends == <>(phase = "done")
=============================================================================
