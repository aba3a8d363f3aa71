------------------------------ MODULE T_Simplex ------------------------------
(* C17: recorded runs of the numbering, orientation and coboundary routines,   *)
(* judged by the definitions in Simplices.                                     *)
EXTENDS TraceKit, Simplices

Bijective(s, m) == Len(s) = m /\ Range(s) = 0 .. (m - 1)

JudgeNumber(e) ==
    LET m == Binom[e.n, Min2(e.d + 1, 4)]
        cnt == IF e.d + 1 <= 4 THEN m ELSE Cardinality(Subsets(5, Vertices(e.n)))
    IN << <<"all simplices listed", Range(e.simp) = Simplices(e.n, e.d) /\ Len(e.simp) = cnt>>,
          <<"count of simplices", e.count = cnt>>,
          <<"numbering is one to one onto 0..count-1", Bijective(e.gen, cnt)>>,
          <<"numbering does not depend on the table", e.other = e.gen>>,
          <<"specialised numbering agrees", e.spec = <<>> \/ e.spec = e.gen>> >>

JudgeParity(e) ==
    << <<"every permutation has the parity of its inversions",
         \A i \in DOMAIN e.perms :
            LET q == e.perms[i] IN /\ q.sign = Sign(q.perm) /\ q.parity = q.sign
                                   /\ q.sorted = Sorted(q.perm)>> >>

JudgeVector(e) ==
    LET m == Len(e.simp)
        where(i) == SelectInSeq(e.simp, LAMBDA s : s = Sorted(Front(e.rows[i])))
        want == [k \in 1..m |-> LET i == SelectInSeq(e.rows, LAMBDA r : Sorted(Front(r)) = e.simp[k])
                                IN IF i = 0 THEN 0 ELSE Last(e.rows[i]) * Sign(Front(e.rows[i]))]
    IN << <<"one entry per simplex", Len(e.vec) = m>>,
          <<"each value, with the sign of its permutation, at its simplex", 
            Len(e.vec) = m => \A k \in 1..m : e.vec[e.idx[k] + 1] = want[k]>> >>

(* the row of a coboundary operator at a simplex: alternating signs at its faces *)
RowOf(s, idx) == LET f(i) == <<idx[SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))],
                               IF (Len(s) - i) % 2 = 0 THEN 1 ELSE -1>>
                 IN {f(i) : i \in 1..Len(s)}
Neg(row) == {<<x[1], -x[2]>> : x \in row}
IndexMap(simp, idx) == [s \in Range(simp) |-> idx[SelectInSeq(simp, LAMBDA t : t = s)]]

Within(D, s, num, den) == \A i \in 1..Len(s) : \A j \in (i + 1)..Len(s) : Below(At(D, s[i], s[j]), num, den)

(* M: recorded operator with one row per number; simp/idx: the simplices that  *)
(* index its rows; fidx: numbers of the faces, as a function                   *)
FullOK(M, D, e, simp, idx, fidx, sgn) ==
    LET at == IndexMap(simp, idx)
        want == [s \in Range(simp) |-> IF Within(D, s, e.num, e.den)
                                       THEN IF sgn = 1 THEN RowOf(s, fidx) ELSE Neg(RowOf(s, fidx))
                                       ELSE {}]
    IN /\ Len(M.rows) = Len(simp)
       /\ \A s \in Range(simp) : Range(M.rows[at[s] + 1]) = want[s]
CompactOK(M, D, e, simp, fidx, sgn) ==
    LET present == {s \in Range(simp) : Within(D, s, e.num, e.den)}
        want == {IF sgn = 1 THEN RowOf(s, fidx) ELSE Neg(RowOf(s, fidx)) : s \in present}
        got == [i \in DOMAIN M.rows |-> Range(M.rows[i])]
    IN Range(got) = want /\ Len(M.rows) = Cardinality(present)
AnySign(Op(_)) == Op(1) \/ Op(-1)

Dot(row, colsOf) ==    \* row (set of <<col, val>>) times the matrix whose row numbered c is colsOf[c+1]
    LET terms == UNION {{<<x[1], y[1], x[2] * y[2]>> : y \in Range(colsOf[x[1] + 1])} : x \in row}
        cols == {t[2] : t \in terms}
    IN \A c \in cols : Sum({t \in terms : t[2] = c}, LAMBDA t : t[3]) = 0

JudgeCoboundary(e) ==
    LET n == e.n
        vidx == [s \in {<<v>> : v \in Vertices(n)} |-> s[1]]
        eidx == IndexMap(e.edges, e.eidx)
        tidx == IndexMap(e.tris, e.tidx)
        D == e.D
    IN << <<"first operator", AnySign(LAMBDA s : FullOK(e.d0, D, e, e.edges, e.eidx, vidx, s))
                              /\ e.d0.shape = <<Len(e.edges), n>> >>,
          <<"second operator", AnySign(LAMBDA s : FullOK(e.d1, D, e, e.tris, e.tidx, eidx, s))
                              /\ e.d1.shape = <<Len(e.tris), Len(e.edges)>> >>,
          <<"second operator, compact", AnySign(LAMBDA s : CompactOK(e.d1c, D, e, e.tris, eidx, s))
                              /\ e.d1c.shape[2] = Len(e.edges)>>,
          <<"third operator, compact", AnySign(LAMBDA s : CompactOK(e.d2c, D, e, e.tets, tidx, s))
                              /\ e.d2c.shape[2] = Len(e.tris)>>,
          <<"second after first is zero", \A i \in DOMAIN e.d1.rows : Dot(Range(e.d1.rows[i]), e.d0.rows)>>,
          <<"third after second is zero", \A i \in DOMAIN e.d2c.rows : Dot(Range(e.d2c.rows[i]), e.d1.rows)>>,
          <<"distances unchanged", e.unchanged>> >>

(* whole numbers of any size: digits in base 10^4, lowest first                 *)
Trim(x) == LET nz == {i \in DOMAIN x : x[i] # 0} IN IF nz = {} THEN <<>> ELSE SubSeq(x, 1, MaxOf(nz))
RECURSIVE Times(_, _, _), Over(_, _, _)
Times(x, m, carry) == IF x = <<>> THEN IF carry = 0 THEN <<>> ELSE <<carry % 10000>> \o Times(<<>>, m, carry \div 10000)
                      ELSE LET v == x[1] * m + carry IN <<v % 10000>> \o Times(Tail(x), m, v \div 10000)
Over(x, m, rem) == IF x = <<>> THEN <<>> ELSE LET v == rem * 10000 + x[Len(x)] IN Over(Front(x), m, v % m) \o <<v \div m>>
BigBinom(n, k) == FoldLeft(LAMBDA x, i : Trim(Over(Times(x, n - k + i, 0), i, 0)), <<1>>, [i \in 1..k |-> i])
LessBig(x, y) == \/ Len(x) < Len(y)
                 \/ Len(x) = Len(y) /\ \E i \in DOMAIN x : x[i] < y[i] /\ \A j \in (i + 1)..Len(x) : x[j] = y[j]

JudgeBigNumber(e) ==
    LET cnt == BigBinom(e.n, e.d + 1)
        whole(x) == \A i \in DOMAIN x : x[i] \in 0..9999
    IN << <<"count of simplices", e.count = cnt>>,
          <<"numbers are below the count", \A i \in DOMAIN e.gen : whole(e.gen[i]) /\ LessBig(e.gen[i], cnt)>>,
          <<"different simplices have different numbers", Cardinality(Range(e.gen)) = Len(e.simp)>>,
          <<"specialised numbering agrees", e.spec = <<>> \/ e.spec = e.gen>> >>

JudgeBigCoboundary(e) ==
    LET below == {<<x[1], x[2]>> : x \in {y \in Range(e.close) : y[3] < e.thr}}
        pairs(s) == {<<s[i], s[j]>> : i, j \in DOMAIN s} 
        within(s) == \A x \in pairs(s) : x[1] < x[2] => x \in below
        eidx == IndexMap(e.edges, e.eidx)
        tidx == IndexMap(e.tris, e.tidx)
        vidx == [s \in {<<v>> : v \in Vertices(e.n)} |-> s[1]]
        near == {x[1] : x \in below} \cup {x[2] : x \in below}
        T == {s \in Range(e.tris) : s[1] < s[2] /\ s[2] < s[3] /\ within(s)}
        row(s, f, sgn) == IF sgn = 1 THEN RowOf(s, f) ELSE Neg(RowOf(s, f))
        full(M, S, idx, f) == AnySign(LAMBDA g : /\ {<<M.rows[i][1], Range(M.rows[i][2])>> : i \in DOMAIN M.rows} = {<<idx[s], row(s, f, g)>> : s \in S}
                                                 /\ Len(M.rows) = Cardinality(S))
        compact(M, S, f) == AnySign(LAMBDA g : /\ {Range(M.rows[i][2]) : i \in DOMAIN M.rows} = {row(s, f, g) : s \in S}
                                               /\ Len(M.rows) = Cardinality(S) /\ M.shape[1] = Cardinality(S))
    IN << <<"all triangles at the threshold are listed", T = Range(e.tris) /\ \A s \in below : \A v \in near :
                (s[2] < v /\ <<s[1], v>> \in below /\ <<s[2], v>> \in below) => <<s[1], s[2], v>> \in T>>,
          <<"first operator", full(e.d0, below, eidx, vidx) /\ e.d0.shape = <<e.sizes[1], e.n>> >>,
          <<"second operator", full(e.d1, T, tidx, eidx) /\ e.d1.shape = <<e.sizes[2], e.sizes[1]>> >>,
          <<"second operator, compact", compact(e.d1c, T, eidx) /\ e.d1c.shape[2] = e.sizes[1]>>,
          <<"third operator, compact", e.third => (compact(e.d2c, Range(e.tets), tidx) /\ e.d2c.shape[2] = e.sizes[2]
                                       /\ \A s \in Range(e.tets) : within(s))>> >>

\* every simplex of a complete complex but those with one edge
JudgeDense(e) ==
    LET idx == IndexMap(e.faces, e.fidx)
        V == 0..(e.n - 1)
        a == e.missing[1]
        b == e.missing[2]
        S == {s \in {Append(f, w) : f \in Range(e.faces), w \in V} :
                 s[e.d + 2] > s[e.d + 1] /\ ~({a, b} \subseteq Range(s))}
    IN << <<"one row for every simplex", Len(e.M.rows) = Cardinality(S) /\ e.M.shape = <<Cardinality(S), Len(e.faces)>> >>,
          <<"the rows are the coboundaries", AnySign(LAMBDA g : {Range(e.M.rows[i][2]) : i \in DOMAIN e.M.rows} = {IF g = 1 THEN RowOf(s, idx) ELSE Neg(RowOf(s, idx)) : s \in S})>> >>

MyJudge(e) == CASE e.kind = "bignumber" -> JudgeBigNumber(e)
                [] e.kind = "bigcoboundary" -> JudgeBigCoboundary(e)
                [] e.kind = "dense" -> JudgeDense(e)
                [] e.kind = "number" -> JudgeNumber(e)
                [] e.kind = "parity" -> JudgeParity(e)
                [] e.kind = "vector" -> JudgeVector(e)
                [] e.kind = "coboundary" -> JudgeCoboundary(e)
                [] OTHER -> << <<e.what, FALSE>> >>
=============================================================================
