------------------------------- MODULE T_Cover -------------------------------
(* C04-C06: the rules of the cover and of the lift, called directly.            *)
EXTENDS TraceKit, Cover

JudgeRadius(e) ==
    LET start == (IF e.sr THEN 2 ELSE 1) * e.birth
        t8 == (8 - e.perc8) * start + e.perc8 * e.death
    IN << <<"a start beyond the death is an error, nothing else is", e.ok = (start <= e.death)>>,
          <<"scale is the fraction perc of the way from start to death", (e.ok /\ start <= e.death) => Near(e.thr, t8 * 125, 2)>>,
          <<"balls have half the scale as radius", e.ok => Near(2 * e.r, e.thr, 3)>> >>

JudgeLift(e) ==
    LET k == IF e.rows = <<>> THEN 0 ELSE Len(e.rows[1])
        same == e.ok /\ Len(e.out) = Len(e.rows) /\ \A i \in DOMAIN e.out : Len(e.out[i]) = k
    IN << <<"lift returns: " \o e.exc, e.ok>>,
          <<"keeps the support", same /\ \A i \in DOMAIN e.out : SubSeq(e.out[i], 1, k - 1) = SubSeq(e.rows[i], 1, k - 1)>>,
          <<"changes values by multiples of the prime", same => \A i \in DOMAIN e.out : (e.out[i][k] - e.rows[i][k]) % e.p = 0>>,
          <<"symmetric range", same => \A i \in DOMAIN e.out : 2 * Abs(e.out[i][k]) <= e.p>>,
          <<"no value becomes zero", same => \A i \in DOMAIN e.out : e.out[i][k] # 0>> >>

(* a multiple of the documented function: fixed by the value at the first point   *)
JudgePoly(e) ==
    LET doc(d) == IF e.how = "linear" THEN e.R - d ELSE (e.R - d) * (e.R - d)
    IN << <<"bump function returns: " \o e.exc, e.ok /\ Len(e.v) = Len(e.ds)>>,
          <<"input unchanged", e.unchanged>>,
          <<"documented values", (e.ok /\ Len(e.v) = Len(e.ds)) => \A i \in DOMAIN e.ds : Near(e.v[i], 1000 * doc(e.ds[i]), 20)>> >>

(* value at level k is exp(-k): each level e times less than the one before        *)
JudgeExp(e) ==
    LET shape == e.ok /\ Len(e.v) = Len(e.levels) IN
    << <<"bump function returns: " \o e.exc, shape>>,
       <<"exponential in the level", shape => \A i \in 2..Len(e.v) :
            (e.levels[i] = e.levels[i - 1] + 1) => Near(Mul4(27183, e.v[i]), e.v[i - 1], 40 + e.v[i - 1] \div 10000)>>,
       <<"positive inside", shape => \A i \in DOMAIN e.v : e.v[i] > 0>> >>

JudgePartition(e) ==
    LET N == Len(e.cols)
        n == Len(e.cols[1])
        ins == [q \in 1..N |-> Inside(e.cols[q], e.rad)]
        shape == e.ok /\ Len(e.phi) = N /\ Len(e.ball) = N /\ \A q \in 1..N : Len(e.phi[q]) = n
        cov == {q \in 1..N : ins[q] # {}}
        unc == N - Cardinality(cov)
        \* with the linear or quadratic bump, a covered point has positive weight
        w(q) == Weights(e.bump, e.table, e.cols[q], ins[q], e.rad)
    IN << <<"partition returns: " \o e.exc, shape>>,
          <<"weights are not negative", shape => \A q \in cov : \A k \in 1..n : e.phi[q][k] >= 0 /\ e.phi[q][k] <= 10000>>,
          <<"weights vanish outside the open balls", shape => \A q \in cov : \A k \in 1..n : (k - 1) \notin ins[q] => e.phi[q][k] = 0>>,
          <<"weights sum to one", shape => \A q \in cov : (\A k \in 1..n : e.phi[q][k] \in 0..10000) /\ Near(SumSeq(e.phi[q]), 10000, n)>>,
          <<"weights proportional to the bump function", shape => \A q \in cov :
               (\A k \in 1..n : e.phi[q][k] # Nan) /\ (Resolved(e.bump, e.table, e.cols[q], ins[q], e.rad) => LET x == w(q) IN \A k \in ins[q] : Near(e.phi[q][k + 1], x[k], 3))>>,
          <<"first ball containing the point", shape => \A q \in cov : e.ball[q] = MinOf(ins[q])>>,
          <<"points in no ball are not given weights", shape => \A q \in (1..N) \ cov : \E k \in 1..n : e.phi[q][k] = Nan>>,
          <<"one warning with their number, or none", e.ok => IF unc = 0 THEN e.warns = 0 ELSE e.warns = 1 /\ unc \in Range(e.counts)>> >>

JudgeUncovered(e) ==
    LET shape == e.ok /\ e.sizes = <<e.total, e.keep>> IN
    << <<"coordinates are returned: " \o e.exc, e.ok>>,
       <<"one for every data point", shape>>,
       <<"the same for the other points", shape => \A i \in DOMAIN e.a : \A j \in DOMAIN e.a[i] :
             IF e.circular THEN e.a[i][j] # Nan /\ e.b[i][j] # Nan /\ CircNear(e.a[i][j], e.b[i][j], 100000, 30)
             \* a point orthogonal to all directions kept by a reduction has no coordinates in either case
             ELSE e.a[i][j] = e.b[i][j] \/ Near(e.a[i][j], e.b[i][j], 10)>>,
       <<"uncovered points are nan", shape => \A i \in DOMAIN e.rest : \A j \in DOMAIN e.rest[i] : e.rest[i][j] = Nan>>,
       <<"one warning with their number, or none", e.ok =>
             /\ IF e.gone = 0 THEN e.warns[1] = 0 ELSE e.warns[1] = 1 /\ e.gone \in Range(e.counts)
             /\ e.warns[2] = 0>> >>

MyJudge(e) == CASE e.kind = "radius" -> JudgeRadius(e)
                [] e.kind = "lift" -> JudgeLift(e)
                [] e.kind = "bumppoly" -> JudgePoly(e)
                [] e.kind = "bumpexp" -> JudgeExp(e)
                [] e.kind = "partition" -> JudgePartition(e)
                [] e.kind = "uncovered" -> JudgeUncovered(e)
                [] OTHER -> << <<e.what, FALSE>> >>
=============================================================================
