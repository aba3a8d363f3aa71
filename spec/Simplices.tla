------------------------------ MODULE Simplices ------------------------------
(* Simplices on the vertices 0..n-1, their numbering in the combinatorial      *)
(* number system, cochains, coboundary operators, and Rips complexes.          *)
EXTENDS Num

Vertices(n) == 0 .. (n - 1)
At(M, i, j) == M[i + 1][j + 1]

(* sorted tuples *)
Pairs(n)   == {e \in Vertices(n) \X Vertices(n) : e[1] < e[2]}
Triples(n) == {<<e[1], e[2], k>> : e \in Pairs(n), k \in Vertices(n)} \cap
              {t \in Vertices(n) \X Vertices(n) \X Vertices(n) : t[1] < t[2] /\ t[2] < t[3]}
Subsets(k, S) == IF k > Cardinality(S) THEN {} ELSE kSubset(k, S)
Simplices(n, d) == {SetToSortSeq(s, <) : s \in Subsets(d + 1, Vertices(n))}

(* ---- numbering -------------------------------------------------------- *)
Index(s) == LET S(l) == Binom[s[l], l] IN Sum(1..Len(s), S)
(* colexicographic order: compare the largest vertices first *)
RECURSIVE ColexLess(_, _)
ColexLess(s, t) ==
    IF s = <<>> THEN FALSE
    ELSE LET a == Last(s) b == Last(t)
         IN a < b \/ (a = b /\ ColexLess(Front(s), Front(t)))

(* ---- signs ------------------------------------------------------------ *)
Inversions(s) == Cardinality({p \in (1..Len(s)) \X (1..Len(s)) : p[1] < p[2] /\ s[p[1]] > s[p[2]]})
Sign(s) == IF Inversions(s) % 2 = 0 THEN 1 ELSE -1
Sorted(s) == SetToSortSeq(Range(s), <)

(* ---- Rips complex: strictly below the scale num/den ---------------------- *)
Below(x, num, den) == x * den < num
RipsEdges(D, n, num, den) == {e \in Pairs(n) : Below(At(D, e[1], e[2]), num, den)}
RipsTriangles(n, E) ==
    UNION {{<<e[1], e[2], k>> : k \in {x \in (e[2] + 1)..(n - 1) : <<e[1], x>> \in E /\ <<e[2], x>> \in E}} : e \in E}
RipsTetra(n, E, T) ==
    UNION {{<<t[1], t[2], t[3], k>> : k \in {x \in (t[3] + 1)..(n - 1) :
              <<t[1], x>> \in E /\ <<t[2], x>> \in E /\ <<t[3], x>> \in E}} : t \in T}

(* ---- cochains as antisymmetric tables ------------------------------------- *)
(* one-cochain: sequence of rows, c[i+1][j+1] = -c[j+1][i+1]                   *)
Table1(n, rows) ==
    LET put(M, r) == [M EXCEPT ![r[1] + 1][r[2] + 1] = r[3], ![r[2] + 1][r[1] + 1] = -r[3]]
    IN FoldLeft(put, [i \in 1..n |-> [j \in 1..n |-> 0]], rows)
(* two-cochain: function on the sorted triples of its support                  *)
Table2(rows) ==
    LET keys == {Sorted(SubSeq(rows[i], 1, 3)) : i \in DOMAIN rows}
        row(k) == CHOOSE i \in DOMAIN rows : Sorted(SubSeq(rows[i], 1, 3)) = k
    IN [k \in keys |-> LET i == row(k) IN Sign(SubSeq(rows[i], 1, 3)) * rows[i][4]]
Val2(c, s) == LET k == Sorted(s) IN IF k \in DOMAIN c THEN Sign(s) * c[k] ELSE 0

D1(c, t) == At(c, t[1], t[2]) + At(c, t[2], t[3]) - At(c, t[1], t[3])
D2(c, s) == Val2(c, <<s[2], s[3], s[4]>>) - Val2(c, <<s[1], s[3], s[4]>>)
            + Val2(c, <<s[1], s[2], s[4]>>) - Val2(c, <<s[1], s[2], s[3]>>)

IsCocycle1(c, T) == \A t \in T : D1(c, t) = 0
IsCocycle1Mod(c, T, p) == \A t \in T : D1(c, t) % p = 0
IsCocycle2(c, Q) == \A s \in Q : D2(c, s) = 0
IsCocycle2Mod(c, Q, p) == \A s \in Q : D2(c, s) % p = 0

(* value on a closed loop of vertices <<v1, ..., vm>> (vm joined back to v1) *)
OnLoop(c, loop) == LET m == Len(loop)
                       step(i) == At(c, loop[i], loop[IF i = m THEN 1 ELSE i + 1])
                   IN Sum(1..m, step)
IsLoop(loop, E) == \A i \in DOMAIN loop :
    LET a == loop[i] b == loop[IF i = Len(loop) THEN 1 ELSE i + 1]
    IN IF a < b THEN <<a, b>> \in E ELSE <<b, a>> \in E
(* value on a chain of weighted triangles <<i, j, k, w>>, and its closedness *)
OnSurface(c, ch) == LET v(i) == ch[i][4] * Val2(c, SubSeq(ch[i], 1, 3)) IN Sum(DOMAIN ch, v)
IsClosedSurface(ch, n, modulus) ==
    \A e \in Pairs(n) :
        LET w(i) == LET t == SubSeq(ch[i], 1, 3)
                    IN IF e[1] \in Range(t) /\ e[2] \in Range(t)
                       THEN LET x == CHOOSE y \in Range(t) : y # e[1] /\ y # e[2]
                            IN ch[i][4] * Sign(t) * Sign(<<e[1], e[2], x>>)
                       ELSE 0
            s == Sum(DOMAIN ch, w)
        IN IF modulus = 0 THEN s = 0 ELSE s % modulus = 0

(* ---- lifting ------------------------------------------------------------- *)
Lift(x, p) == IF 2 * x > p - 1 THEN x - p ELSE x
LiftRows(rows, p) == [i \in DOMAIN rows |-> [rows[i] EXCEPT ![Len(rows[i])] = Lift(@, p)]]
=============================================================================
