------------------------------- MODULE T_Circle -------------------------------
(* C15: recorded runs of the circle map utilities; angles in Turn units.           *)
EXTENDS TraceKit, CircleGroup, Trig

InRange(f) == \A i \in DOMAIN f : f[i] >= 0 /\ f[i] <= Turn
SameMap(f, g, tol) == Len(f) = Len(g) /\ \A i \in DOMAIN f : CircNear(f[i], g[i], Turn, tol)

(* a behaviour of CircleGroupModel in the real code: e.maps[s] after s - 1 operations *)
JudgeOps(e) ==
    LET S == DOMAIN e.ops
        after(acc, op) ==
            IF op.op = "offset" THEN [acc EXCEPT !.m[op.k] = Off(@, op.s, Turn)]
            ELSE [acc EXCEPT !.m = Comb(@, op.mat, Turn)]
        ideal == FoldLeft(LAMBDA acc, op : Append(acc, after(acc[Len(acc)], op)), << [m |-> e.first] >>, e.ops)
    IN << <<"works: " \o e.exc, e.ok>>,
          <<"as many maps as rows", e.ok => \A s \in S : Len(e.maps[s]) = Len(ideal[s + 1].m)>>,
          <<"rotations and combinations are taken modulo whole turns", e.ok => \A s \in S : Len(e.maps[s]) = Len(ideal[s + 1].m) =>
                 \A k \in DOMAIN e.maps[s] : SameMap(e.maps[s][k], ideal[s + 1].m[k], 4)>>,
          <<"in the range of the circle", e.ok => \A s \in S : \A k \in DOMAIN e.maps[s] : e.touched[s][k] => InRange(e.maps[s][k])>> >>

JudgeComb(e) ==
    << <<"works: " \o e.exc, e.ok>>,
       <<"one row of the matrix, one map", e.ok => e.out = <<>> \/ Len(e.out) = Len(e.mat)>>,
       <<"the combination modulo whole turns", e.ok => LET c == Comb(e.maps, e.mat, Turn)
                                                     IN Len(e.out) = Len(c) /\ \A r \in DOMAIN c : SameMap(e.out[r], c[r], 4)>>,
       <<"in the range of the circle", e.ok => \A r \in DOMAIN e.out : InRange(e.out[r])>>,
       <<"a vector is a matrix of one row", e.vectorshape>> >>

JudgeCenter(e) ==
    LET f == e.map
        N == Len(f)
        lo == MinOf(Range(f))
        hi == MaxOf(Range(f))
        s == e.out[1] - f[1]
        \* a fiftieth may be the fullest if no other certainly has more
        best == MaxOf({Within(f, lo, hi, i, -2) : i \in 0..49})
        cand == {i \in 0..49 : Within(f, lo, hi, i, 2) >= best}
    IN << <<"works: " \o e.exc, e.ok>>,
          <<"in the range of the circle", e.ok => Len(e.out) = N /\ InRange(e.out)>>,
          <<"all points are rotated alike", e.ok => \A i \in 1..N : CircNear(e.out[i] - f[i], s, Turn, 4)>>,
          <<"the fullest part begins in the middle", (e.ok /\ hi > lo) => \E i \in cand : CircNear(EdgeAt(lo, hi, i) + s, Turn \div 2, Turn, 6)>>,
          <<"a constant map goes to the middle", (e.ok /\ hi = lo) => CircNear(e.out[1], Turn \div 2, Turn, 3100)>> >>

JudgeLevels(e) ==
    LET n == e.n
    IN IF ~e.allowed THEN << <<"not a number of level sets", ~e.ok>> >>
       ELSE << <<"works: " \o e.exc, e.ok>>,
               <<"one value for every point", e.ok => Len(e.out) = Len(e.map)>>,
               <<"bands alternate", (e.ok /\ e.smooth = 0) => \A i \in DOMAIN e.map :
                    e.out[i] = 1000000 * Band(e.map[i], n, Turn) \/ (Edge(e.map[i], n, Turn) /\ e.out[i] \in {0, 1000000})>>,
               <<"values between 0 and 1", e.ok => \A i \in DOMAIN e.out : e.out[i] >= 0 /\ e.out[i] <= 1000000>>,
               <<"smooth transition of the same bands", (e.ok /\ e.smooth > 0) => \A i \in DOMAIN e.map :
                    LET u == (2 * Climb(e.map[i], n, Turn) - Turn) \div 96         \* 10^-4
                    IN Abs(e.logit[i]) < 500000 /\ Near((e.logit[i] * e.smooth) \div 1000, u, 4)>> >>

JudgeBow(e) ==
    LET want(a, c) == 5000 - Cos4((c * Turn) \div 6 - a) \div 2      \* sin^2 of half the angle
    IN << <<"works: " \o e.exc, e.ok>>,
          <<"a colour for every entry", e.ok => e.shape = e.want>>,
          <<"in the unit cube", e.ok => \A i \in DOMAIN e.rgb : \A c \in 1..3 : e.rgb[i][c] >= 0 /\ e.rgb[i][c] <= 10000>>,
          <<"three phases of one wave", e.ok => \A i \in DOMAIN e.rgb :
               \* sin^2(pi (k/6 - h)) with h half a turn ahead, k = 3, 5, 7
               \A c \in 1..3 : Near(e.rgb[i][c], want(e.map[i], 2 * (c - 1)), 6)>>,
          <<"continuous, also across the seam", e.ok => \A i, j \in DOMAIN e.rgb : \A c \in 1..3 :
               Abs(e.rgb[i][c] - e.rgb[j][c]) <= (Abs(Wrap(e.map[i] - e.map[j], Turn)) \div 28) + 4>> >>

MyJudge(e) == CASE e.kind = "ops" -> JudgeOps(e)
                [] e.kind = "comb" -> JudgeComb(e)
                [] e.kind = "center" -> JudgeCenter(e)
                [] e.kind = "levels" -> JudgeLevels(e)
                [] e.kind = "bow" -> JudgeBow(e)
                [] OTHER -> << <<e.what, FALSE>> >>
=============================================================================
