-------------------------------- MODULE T_Quot --------------------------------
(* C16: recorded runs of the projective and lens map utilities; vectors in 10^-4,   *)
(* angles in Turn units.                                                            *)
EXTENDS TraceKit, Quotients, Trig

One == 10000
UnitVec(x, tol) == Near(Dot4(x, x), One, tol)
SmallEnough(v) == \A i \in DOMAIN v : Abs(v[i]) <= 40000
AllSmall(vs) == \A i \in DOMAIN vs : SmallEnough(vs[i])

JudgeHopf(e) ==
    LET N == Len(e.Z)
        ok == e.ok /\ Len(e.out) = N /\ AllSmall(e.out) /\ \A i \in 1..N : Len(e.out[i]) = 3
    IN << <<"works: " \o e.exc, ok>>,
          <<"on the unit sphere", ok => \A i \in 1..N : UnitVec(e.out[i], 8)>>,
          <<"as far apart as the lines in the complex plane", ok => \A i, j \in 1..N : i < j =>
               Near(Dot4(e.out[i], e.out[j]), (2 * One * Herm2(e.Z[i], e.Z[j])) \div (Norm2(e.Z[i]) * Norm2(e.Z[j])) - One, 12)>> >>

JudgeRot(e) ==
    LET d == Len(e.a)
        ok == e.ok /\ IsSquare(e.R, d) /\ AllSmall(e.R)
        Col(j) == [i \in 1..d |-> e.R[i][j]]
        hundredth(x) == (x + 50) \div 100
    IN << <<"works: " \o e.exc, ok>>,
          <<"orthogonal", ok => \A i, j \in 1..d : i <= j => Near(Dot4(e.R[i], e.R[j]), IF i = j THEN One ELSE 0, 8)>>,
          <<"a rotation", (ok /\ d <= 4) => Det([i \in 1..d |-> [j \in 1..d |-> hundredth(e.R[i][j])]]) > 0>>,
          <<"takes the first direction to the second", ok => (d = 1 \/ \A i \in 1..d : Near(Dot4(e.R[i], e.a), e.b[i], 8))>> >>

(* twice stereographic pictures in disks: the points they show, and their products     *)
Up(s) == One + Len2(s)
Down(s) == One - Len2(s)
(* (product of the shown points) * Up * Up in 10^-4, with side +1 or -1 for the last coordinates *)
Shown(s, t, side) == 4 * Dot4(s, t) + side * ((Down(s) * Down(t)) \div One)
Scaled(g, s, t) == (g * ((Up(s) * Up(t)) \div One)) \div One

JudgeStereo(e) ==
    LET N == Len(e.X)
        d == Len(e.X[1])
        ok == e.ok /\ Len(e.out) = N /\ AllSmall(e.out) /\ \A i \in 1..N : Len(e.out[i]) = d - 1
        h(i) == Dot4(e.X[i], e.u)
        given == e.u # <<>>
        sgn(x) == IF x < 0 THEN -1 ELSE 1
        shownh(i) == (Down(e.out[i]) * One) \div Up(e.out[i])
        spread(v) == Sum(1..N, LAMBDA i : (Sq(Dot4(e.X[i], v))) \div One)
    IN << <<"works: " \o e.exc, ok>>,
          <<"in the unit disk", ok => \A i \in 1..N : Len2(e.out[i]) <= One + 5>>,
          <<"the pole is in the middle", (ok /\ given) => \A i \in 1..N : Near(shownh(i), Abs(h(i)), 12)>>,
          <<"faithful up to antipodes", ok => \A i, j \in 1..N : i < j =>
               LET g == Dot4(e.X[i], e.X[j]) x == Shown(e.out[i], e.out[j], 1)
               IN IF given /\ Abs(h(i)) > 20 /\ Abs(h(j)) > 20
                  THEN Near(x, Scaled(sgn(h(i)) * sgn(h(j)) * g, e.out[i], e.out[j]), 40)
                  ELSE Near(Abs(x), Abs(Scaled(g, e.out[i], e.out[j])), 40)>>,
          <<"unchanged when representatives are negated", (ok /\ given) => Len(e.neg) = N /\ \A i \in 1..N : Abs(h(i)) > 20 =>
               \A k \in DOMAIN e.out[i] : Near(e.out[i][k], e.neg[i][k], 4)>>,
          <<"by default the pole is the direction of least spread", (ok /\ ~given) =>
               LET s == Sum(1..N, LAMBDA i : Sq(shownh(i)) \div One) IN \A v \in Range(e.trial) : s <= spread(v) + 4 * N + 10>> >>

JudgeHemi(e) ==
    LET N == Len(e.X)
        d == Len(e.X[1])
        ok == e.ok /\ Len(e.out) = N /\ AllSmall(e.out) /\ \A i \in 1..N : Len(e.out[i]) = d - 1
        moved(s) == [s EXCEPT ![1] = @ - 25000]
        second(i) == e.out[i][1] > 12500
        pos == [i \in 1..N |-> IF second(i) THEN moved(e.out[i]) ELSE e.out[i]]
        h(i) == Dot4(e.X[i], e.c)
    IN << <<"works: " \o e.exc, ok>>,
          <<"in one of two unit disks", ok => \A i \in 1..N : Len2(pos[i]) <= One + 5>>,
          <<"each hemisphere in its own disk", ok => \A i \in 1..N : Abs(h(i)) > 3 => (second(i) <=> h(i) > 0)>>,
          <<"faithful", ok => \A i, j \in 1..N : i < j =>
               Near(Shown(pos[i], pos[j], IF second(i) = second(j) THEN 1 ELSE -1), Scaled(Dot4(e.X[i], e.X[j]), pos[i], pos[j]), 40)>>,
          <<"the centre is in the middle", ok => \A i \in 1..N : Near((Down(pos[i]) * One) \div Up(pos[i]), Abs(h(i)), 12)>> >>

JudgePole(e) ==
    LET ok == e.ok /\ Len(e.y) = 2 /\ Len(e.u) = 3 /\ SmallEnough(e.u)
        inside == e.n2 <= One
    IN << <<"works: " \o e.exc, ok>>,
          <<"a unit vector on the upper hemisphere", ok => UnitVec(e.u, 6) /\ e.u[3] >= 0>>,
          <<"above the returned point", ok => \A i \in 1..2 : Near(e.u[i], e.y[i], 1)>>,
          <<"points of the disk stay", (ok /\ inside) => \A i \in 1..2 : Near(e.y[i], e.x[i], 1)>>,
          <<"points outside are moved to the circle", (ok /\ ~inside) => Near(e.u[3], 0, 4) /\ \A i \in 1..2 : Near(e.y[i], e.dir[i], 1)>> >>

JudgeLens(e) ==
    LET N == Len(e.pts)
        q == e.q
        ok == e.ok /\ Len(e.out) = N /\ AllSmall(e.out) /\ \A i \in 1..N : Len(e.out[i]) = 3
        a(i) == e.pts[i][1]
        b(i) == e.pts[i][2]
        r(i) == e.pts[i][3]                      \* |p2| and |p1| in 10^-4
        s(i) == e.pts[i][4]
        z(i) == (s(i) * ((2 * Height(a(i), q, Turn) - Turn) \div 96)) \div 10000
        turn(i, k) == Abs(Wrap(q * e.around[i] - (q * b(i) - k * Turn), q * Turn)) <= 12 * q
        k(i) == Sector(a(i), q, Turn)
        seam(i) == Height(a(i), q, Turn) < 3 * q \/ Height(a(i), q, Turn) > Turn - 3 * q
    IN << <<"works: " \o e.exc, ok>>,
          <<"in the unit ball", ok => \A i \in 1..N : Dot4(e.out[i], e.out[i]) <= One + 8>>,
          <<"distance from the axis", ok => \A i \in 1..N : Near(Dot4(SubSeq(e.out[i], 1, 2), SubSeq(e.out[i], 1, 2)), (r(i) * r(i)) \div One, 8)>>,
          <<"height", ok => \A i \in 1..N : (s(i) = 0 /\ Near(e.out[i][3], 0, 2)) \/ (s(i) > 0 /\ (Near(e.out[i][3], z(i), 4) \/ (seam(i) /\ Near(Abs(e.out[i][3]), s(i), 4))))>>,
          <<"angle, for every representative", ok => \A i \in 1..N : (r(i) > 0 /\ s(i) > 0) =>
               (turn(i, k(i)) \/ (seam(i) /\ \E j \in {-1, 1} : turn(i, k(i) + j)))>> >>

MyJudge(e) == CASE e.kind = "hopf" -> JudgeHopf(e)
                [] e.kind = "rot" -> JudgeRot(e)
                [] e.kind = "stereo" -> JudgeStereo(e)
                [] e.kind = "hemi" -> JudgeHemi(e)
                [] e.kind = "pole" -> JudgePole(e)
                [] e.kind = "lens" -> JudgeLens(e)
                [] OTHER -> << <<e.what, FALSE>> >>
=============================================================================
