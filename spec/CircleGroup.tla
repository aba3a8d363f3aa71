------------------------------ MODULE CircleGroup ------------------------------
(* Circle valued maps as sequences of residues modulo M, and what the utilities    *)
(* for them do.                                                                    *)
EXTENDS IntMatrix

Off(f, s, M) == [i \in DOMAIN f |-> (f[i] + s) % M]
\* c * a modulo M, for M up to a million and any c
TimesMod(c, a, M) == LET b == a % M IN (((((c % M) \div 1000) * b) % M) * 1000 + ((c % M) % 1000) * b) % M
Comb(fs, mat, M) == [r \in DOMAIN mat |-> [i \in DOMAIN fs[1] |-> Sum(DOMAIN fs, LAMBDA k : TimesMod(mat[r][k], fs[k][i], M)) % M]]

(* 2n bands of equal width; membership alternates; position within a band           *)
Band(a, n, M) == ((2 * n * (a % M)) \div M) % 2
Edge(a, n, M) == (2 * n * (a % M)) % M = 0
Climb(a, n, M) == LET y == (2 * n * (a % M)) % (2 * M) IN IF y < M THEN y ELSE 2 * M - y

(* fiftieths of the range of a map given by whole numbers (not residues)            *)
EdgeAt(lo, hi, i) == lo + ((hi - lo) * i) \div 50
Within(f, lo, hi, i, tol) == Cardinality({q \in DOMAIN f : f[q] >= EdgeAt(lo, hi, i) - tol /\ f[q] <= EdgeAt(lo, hi, i + 1) + tol})
=============================================================================
