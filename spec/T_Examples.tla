------------------------------ MODULE T_Examples ------------------------------
(* C18: recorded runs of the generators of example data.                            *)
EXTENDS TraceKit, Spaces

Basic(e) == << <<"works: " \o e.exc, e.ok>>,
               <<"the same again", e.first = e.again>>,
               <<"documented default seed", e.default # <<>> => e.first = e.default>> >>
Seeded(e, n) == << <<"another seed gives other points", (e.ok /\ n > 2 /\ e.other # <<>>) => e.first # e.other>>,
                   <<"seed zero is a seed", (e.ok /\ n > 2 /\ e.unseeded # <<>>) => e.first # e.unseeded>> >>
Points(e, n, d) == << <<"shape of the sample", e.ok => (e.shape = <<n, d>> /\ e.n # -1)>> >>
Fine(e) == e.ok /\ e.n # -1 /\ \A i \in DOMAIN e.X : InRange(e.X[i])
AllOn(e, what, P(_)) == << <<what, e.ok => (Fine(e) /\ \A i \in DOMAIN e.X : P(i))>> >>
AllAround(angles) == {Quarter(a) : a \in Range(angles)} = 0..3

JudgeSurface(e, d) ==
    LET N == Len(e.X)
        lat(i) == (IF e.rho[i] >= e.R THEN 0 ELSE 1) + (IF e.X[i][3] >= 0 THEN 0 ELSE 2)
        klat(i) == IF e.rho[i] >= e.R THEN 0 ELSE 1
    IN Points(e, e.n, d) \o Seeded(e, e.n)
       \o AllOn(e, "on the surface", LAMBDA i : IF d = 3 THEN OnTorus(e.X[i], e.rho[i], e.R, e.r) ELSE OnKlein(e.X[i], e.rho[i], e.R, e.r))
       \o << <<"all around the surface", (Fine(e) /\ e.n >= 200) => (AllAround(e.az) /\ {klat(i) : i \in 1..N} = {0, 1}
                  /\ (IF d = 3 THEN {lat(i) : i \in 1..N} = 0..3 ELSE {e.X[i][4] > 0 : i \in 1..N} = {TRUE, FALSE}))>> >>

JudgeTrefoil(e) ==
    Points(e, e.n, 3) \o AllOn(e, "on the knotted tube", LAMBDA i : OnTrefoil(e.X[i], e.rho[i], e.az[i], e.w, e.noisy))
    \o << <<"all along the knot", (Fine(e) /\ e.n >= 200) => (AllAround(e.az) /\ \A k \in 0..3 :
              \E i, j \in 1..e.n : Quarter(e.az[i]) = k /\ Quarter(e.az[j]) = k /\ e.X[i][3] > 1500 /\ e.X[j][3] < -1500)>>,
          <<"no point twice", Fine(e) => e.n > 300 \/ Cardinality(Range(e.X)) = e.n>> >>

JudgeSphere(e) ==
    Points(e, e.n, 3) \o AllOn(e, "on the sphere", LAMBDA i : Near(Sq(e.X[i][1]) + Sq(e.X[i][2]) + Sq(e.X[i][3]), U * U, 4 * U))
    \o << <<"in all octants", (Fine(e) /\ e.n >= 200) => Cardinality({<<x[1] > 0, x[2] > 0, x[3] > 0>> : x \in Range(e.X)}) = 8>> >>

JudgeNoisy(e) ==
    Points(e, e.n, 2) \o (IF e.noise >= 0 THEN Seeded(e, e.n) ELSE <<>>)
    \o AllOn(e, "near the circle", LAMBDA i : FromCircle(e.X[i], 0, U) <= e.noise + 2)
    \o << <<"all around the circle", (Fine(e) /\ e.n >= 200) => AllAround(e.az)>> >>

(* radius, centre, tolerance per coordinate and number of points of each circle      *)
Circles(e, cs, noise) ==
    LET n == SumSeq([j \in DOMAIN cs |-> cs[j][3]])
        on(i) == {j \in DOMAIN cs : FromCircle(e.X[i], cs[j][2], cs[j][1]) <= (noise * 1415) \div 1000 + 3}
    IN Points(e, n, 2)
       \o AllOn(e, "on one of the circles", LAMBDA i : on(i) # {})
       \o << <<"every circle has its points", Fine(e) => \A j \in DOMAIN cs : Cardinality({i \in DOMAIN e.X : j \in on(i)}) = cs[j][3]>>,
             <<"all around every circle", Fine(e) => \A j \in DOMAIN cs :
                 \A sx, sy \in {-1, 1} : \E i \in DOMAIN e.X : j \in on(i) /\ sx * (e.X[i][1] - cs[j][2]) > cs[j][1] \div 3 /\ sy * e.X[i][2] > cs[j][1] \div 3>> >>

JudgeGenus2(e) ==
    LET away(i) == [e.X[i] EXCEPT ![1] = 9000 - @]           \* seen from the other centre
        left(i) == e.X[i][1] <= 4500
        near(x) == LET rho == ISqrt(Sq(x[1]) + Sq(x[2])) IN Near(Sq(rho - 5000) + Sq(x[3]), 4 * U * U, 12 * U)
    IN << <<"shape of the sample", e.ok => (Len(e.shape) = 2 /\ e.shape[2] = 3 /\ e.shape[1] >= 5000 /\ e.n # -1)>> >>
       \o AllOn(e, "on the surface of genus two", LAMBDA i : IF left(i) THEN near(e.X[i]) ELSE near(away(i)))
       \o << <<"both handles, all around", Fine(e) => \A s \in {TRUE, FALSE} : \A up \in {-1, 1} : \A sx \in {-1, 1} :
                \E i \in DOMAIN e.X : left(i) = s /\ up * e.X[i][2] > 2000 /\ sx * (e.X[i][1] - (IF s THEN 0 ELSE 9000)) > 1000>> >>

JudgeRp2(e) ==
    LET n == e.n IN
    << <<"shapes", e.ok => e.shape = <<n, 3>> /\ e.dshape = <<n, n>> >>,
       <<"on the sphere", e.ok => \A i \in 1..n : Near((Sq(e.X[i][1]) + Sq(e.X[i][2]) + Sq(e.X[i][3])) \div 10000, 10000, 4)>>,
       <<"symmetric, zero on the diagonal", e.ok => \A i, j \in 1..n : e.D[i][j] = e.D[j][i] /\ e.D[i][i] = 0>>,
       <<"projective arc length", e.ok => \A i, j \in 1..n : i < j => RpDistance(e.X[i], e.X[j], e.D[i][j])>>,
       <<"on both hemispheres", (e.ok /\ n >= 25) => Cardinality({<<x[1] > 0, x[3] > 0>> : x \in Range(e.X)}) = 4>> >> \o Seeded(e, n)

JudgeMoore(e) ==
    LET n == e.n
        small(x) == Norm4(x) < 30
    IN << <<"shapes", e.ok => e.shape = <<e.dshape[1], 2>> /\ e.dshape[1] = e.dshape[2] /\ e.dshape[1] >= n /\ e.dshape[1] <= e.rough>>,
          <<"about pi/4 of the rough number", (e.ok /\ e.rough >= 100) => Abs(1000 * e.dshape[1] - 785 * e.rough) <= 70 * e.rough>>,
          <<"in the unit disk", e.ok => \A i \in 1..n : Norm4(e.X[i]) <= One4 + 1>>,
          <<"symmetric, zero on the diagonal, not negative", e.ok => e.symmetric /\ \A i, j \in 1..n : e.D[i][j] = e.D[j][i] /\ e.D[i][i] = 0 /\ e.D[i][j] >= 0>>,
          <<"angles of the points", e.ok => \A i \in 1..n : LET m == Norm4(e.X[i])
               IN Near(e.X[i][1], (m * Cos4(e.az[i])) \div 10000, 4) /\ Near(e.X[i][2], (m * Sin4(e.az[i])) \div 10000, 4)>>,
          <<"shortest way, at most once through the boundary", e.ok => \A i, j \in 1..n : (i < j /\ ~small(e.X[i]) /\ ~small(e.X[j])) =>
               Near(e.D[i][j], MooreDistance(e.X[i], e.az[i], e.X[j], e.az[j], e.q), 8)>> >>

(* line patches: squared distance of each pixel from the line, in 10^-4             *)
JudgeLines(e) ==
    LET N == e.angles * e.offsets
        d == e.dim
        ok == e.ok /\ e.shape = <<N, d * d>>
        at(k) == (10000 * (k - 1)) \div (d - 1) - 5000
        off(j) == IF e.offsets = 1 THEN -10000 ELSE (20000 * (j - 1)) \div (e.offsets - 1) - 10000
        dist(i, j, a, b) == LET t == ((i - 1) * (Turn \div 2)) \div e.angles
                            IN (at(a) * Cos4(t) + at(b) * Sin4(t)) \div 10000 + off(j)
        sqd(x) == (x * x) \div 10000
    IN << <<"shape of the sample", e.ok => e.shape = <<N, d * d>> >>,
          <<"blurred lines at all angles and offsets", ok => \A i \in 1..e.angles, j \in 1..e.offsets, a, b \in 1..d :
               LET w == e.W[(i - 1) * e.offsets + j][(a - 1) * d + b] s == sqd(dist(i, j, a, b))
               IN IF s > e.blind THEN w > s - s \div 100 ELSE Near(w, s, 12)>> >>

(* dots: squared distance of each pixel from the dot, in 10^-3, pixels one apart     *)
JudgeDots(e) ==
    LET N == e.s * e.s
        d == e.dim
        ok == e.ok /\ e.shape = <<N, d * d>>
        w(k, a, b) == e.W[k][(a - 1) * d + b]
        (* twice the position of the dot relative to the first pixel, in 10^-3 *)
        row(k) == w(k, 1, 1) - w(k, 2, 1) + U
        col(k) == w(k, 1, 1) - w(k, 1, 2) + U
        two(a) == 2 * U * (a - 1)
        far(x) == (x \div 10) * (x \div 10)                   \* x^2 / 100
        rows == {(row(k) + 20) \div 100 : k \in 1..N}
    IN << <<"shape of the sample", e.ok => e.shape = <<N, d * d>> >>,
          <<"one round dot in each", ok => \A k \in 1..N, a, b \in 1..d :
               Near(w(k, a, b), (far(two(a) - row(k)) + far(two(b) - col(k))) \div 40, 40 + Abs(row(k)) \div 100 + Abs(col(k)) \div 100)>>,
          <<"a square grid of dots around the middle", ok =>
               LET mid(x) == (x - (d - 1) * U + 48) \div 97
                   rs == {mid(row(k)) : k \in 1..N}
                   cs == {mid(col(k)) : k \in 1..N}
                   at == {<<mid(row(k)), mid(col(k))>> : k \in 1..N}
               IN Cardinality(rs) = e.s /\ Cardinality(cs) = e.s /\ Cardinality(at) = N
                  /\ \A x \in rs : -x \in rs /\ x \in cs>> >>

MyJudge(e) ==
    IF e.kind \notin {"torus", "klein", "trefoil", "sphere", "noisy", "bullseye", "three", "genus2", "rp2", "moore", "lines", "dots"} THEN << <<e.what, FALSE>> >>
    ELSE Basic(e) \o
       (IF ~e.ok THEN <<>>
        ELSE CASE e.kind = "torus" -> JudgeSurface(e, 3)
               [] e.kind = "klein" -> JudgeSurface(e, 4)
               [] e.kind = "trefoil" -> JudgeTrefoil(e)
               [] e.kind = "sphere" -> JudgeSphere(e)
               [] e.kind = "noisy" -> JudgeNoisy(e)
               [] e.kind = "bullseye" -> Circles(e, << <<1000, 0, 200>>, <<2000, 0, 200>>, <<3000, 0, 200>> >>, 50)
               [] e.kind = "three" -> Circles(e, << <<1000, 0, 50>>, <<2000, 4000, 500>>, <<2500, -4000, 500>> >>, 150)
               [] e.kind = "genus2" -> JudgeGenus2(e)
               [] e.kind = "rp2" -> JudgeRp2(e)
               [] e.kind = "moore" -> JudgeMoore(e)
               [] e.kind = "lines" -> JudgeLines(e)
               [] e.kind = "dots" -> JudgeDots(e))
=============================================================================
