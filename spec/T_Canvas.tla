------------------------------- MODULE T_Canvas -------------------------------
(* C19: sequences of plot calls on four axes, replayed into the real helpers.  The  *)
(* state of CanvasOps is observed after every call; positions, values and colours   *)
(* in 10^-3.                                                                        *)
EXTENDS TraceKit, Num, CanvasOps

U == 1000
Count(k, as) == Cardinality({i \in DOMAIN as : as[i].kind = k})
Of(k, as) == SelectSeq(as, LAMBDA a : a.kind = k)
KindOf(digest) == CHOOSE k \in Kinds \cup {"something else"} : Len(digest) > Len(k) /\ SubSeq(digest, 1, Len(k)) = k

(* what is drawn, given the state the specification reached                          *)
Boxes(e, bs) ==
    LET n == Len(e.P)
        place(i) == IF e.op[1] = "scatter" THEN e.X[i] ELSE <<U * GridPlace(i, n)[1], U * GridPlace(i, n)[2]>>
        flat(p) == FlattenSeq(p)
        all == UNION {Range(e.P[i]) : i \in 1..n}
        lim(k) == e.after.limits[e.target][k]
        inside(x, k) == Min2(lim(k)[1], lim(k)[2]) <= x + 1 /\ x - 1 <= Max2(lim(k)[1], lim(k)[2])
    IN << <<"as many patches as given", Len(bs) = n>>,
          <<"every patch unaltered at its position", Len(bs) = n => \A i \in 1..n :
               bs[i].data /\ bs[i].at = place(i) /\ Len(bs[i].patch) = e.d /\ flat(bs[i].patch) = e.P[i] /\ bs[i].zoom = e.zoom>>,
          <<"one grey scale for all", \A i \in DOMAIN bs : bs[i].grey /\ bs[i].low = MinOf(all) /\ bs[i].high = MaxOf(all)>>,
          <<"all patches in view", \A i \in 1..n : inside(place(i)[1], 1) /\ inside(place(i)[2], 2)>> >>

Near2(x, y, tol) == Near(x[1], y[1], tol) /\ Near(x[2], y[2], tol)
OnCircle(p, cx) == Near(Sq(p[1] - cx) + Sq(p[2]), U * U, 4 * U)
Circle(line, cx) ==
    /\ \A i \in DOMAIN line.xy : OnCircle(line.xy[i], cx)
    /\ \A i \in 1..(Len(line.xy) - 1) : Sq(line.xy[i][1] - line.xy[i + 1][1]) + Sq(line.xy[i][2] - line.xy[i + 1][2]) <= 200 * 200
    /\ Near2(line.xy[1], line.xy[Len(line.xy)], 5)
    /\ {<<p[1] > cx, p[2] > 0>> : p \in Range(line.xy)} = BOOLEAN \X BOOLEAN
Middle(a) == LET n == Len(a.xy) IN <<SumSeq([i \in 1..n |-> a.xy[i][1]]) \div n, SumSeq([i \in 1..n |-> a.xy[i][2]]) \div n>>
Opposite(a, b) == Len(a.xy) = Len(b.xy) /\ \A i \in DOMAIN a.xy : \E j \in DOMAIN b.xy : Near2(<<-a.xy[i][1], -a.xy[i][2]>>, b.xy[j], 2)

ProjBoundary(new) ==
    LET ls == Of("line", new)
        as == Of("arrow", new)
    IN << <<"the boundary circle", Len(ls) = 1 /\ Circle(ls[1], 0)>>,
          <<"antipodal arrows on it", Len(as) = 2 /\ Opposite(as[1], as[2]) /\ \A i \in 1..2 : Near(Sq(Middle(as[i])[1]) + Sq(Middle(as[i])[2]), U * U, 400 * U)>> >>

HalvesBoundary(new) ==
    LET ls == Of("line", new)
        as == Of("arrow", new)
        close(a, cx) == LET m == Middle(a) IN Near(Sq(m[1] - cx) + Sq(m[2]), U * U, 700 * U)
        side(a, cx) == LET m == Middle(a) IN IF Abs(m[1] - cx) > Abs(m[2]) THEN IF m[1] > cx THEN 0 ELSE 2 ELSE IF m[2] > 0 THEN 1 ELSE 3
        first == SelectSeq(as, LAMBDA a : close(a, 0) /\ ~close(a, 2500))
        second == SelectSeq(as, LAMBDA a : close(a, 2500) /\ ~close(a, 0))
    IN << <<"two circles", Len(ls) = 2 /\ \E i, j \in 1..2 : i # j /\ Circle(ls[i], 0) /\ Circle(ls[j], 2500)>>,
          <<"four arrows at each", Len(first) = 4 /\ Len(second) = 4 /\ {side(a, 0) : a \in Range(first)} = 0..3 /\ {side(a, 2500) : a \in Range(second)} = 0..3>> >>

Wires(e, new) ==
    LET ms == Of("mesh", new)
        m == ms[1]
        start(i) == SumSeq(SubSeq(m.lengths, 1, i - 1))
        wire(i) == SubSeq(m.wires, start(i) + 1, start(i) + m.lengths[i])
        parallel(w) == \A p \in Range(w) : Near(p[3], w[1][3], 1)
        (* one plane through the third axis *)
        meridian(w) == \A p, q \in {w[1], w[1 + Len(w) \div 2], w[1 + Len(w) \div 3]} : Near(p[1] * q[2], p[2] * q[1], 4 * U)
        ws == [i \in DOMAIN m.lengths |-> wire(i)]
        flatp == {i \in DOMAIN ws : parallel(ws[i])}
    IN << <<"one mesh", Len(ms) = 1>>,
          <<"on the unit sphere", Len(ms) = 1 => \A p \in Range(m.wires) : Near(Sq(p[1]) + Sq(p[2]) + Sq(p[3]), U * U, 5 * U)>>,
          <<"parallels and meridians", (Len(ms) = 1 /\ e.lines # <<>>) =>
               /\ Cardinality(flatp) = e.lines[1]
               /\ Len(ws) = e.lines[1] + e.lines[2]
               /\ \A i \in DOMAIN ws : i \notin flatp => meridian(ws[i])>> >>

Dots(e, new) ==
    LET ds == Of("dots", new)
        n == Len(e.X)
        d == ds[1]
        le(x, y) == \A k \in 1..3 : x[k] <= y[k]
    IN << <<"one set of points", Len(ds) = 1>>,
          <<"every point once at its position", Len(ds) = 1 => Len(d.at) = n /\ \A i \in 1..n : d.at[i] = SubSeq(e.X[i], 1, e.d)>>,
          <<"colours", (Len(ds) = 1 /\ Len(d.at) = n) => Len(d.colour) = n /\ (e.colour = "any" \/
               IF e.colour = "rgb" THEN \A i \in 1..n : d.colour[i] = e.f[i]
               ELSE LET lo == MinOf(Range(e.f)) hi == MaxOf(Range(e.f))
                    IN \A i, j \in 1..n : /\ e.f[i] = e.f[j] => d.colour[i] = d.colour[j]
                                          /\ e.f[i] <= e.f[j] => le(d.colour[i], d.colour[j])
                                          /\ (e.f[i] = lo /\ lo < hi) => d.colour[i] = <<0, 0, 0>>
                                          /\ (e.f[i] = hi /\ lo < hi) => d.colour[i] = <<U, U, U>>
                                          /\ (lo < hi /\ 20 * Abs(e.f[i] - e.f[j]) > hi - lo) => d.colour[i] # d.colour[j])>>,
          <<"a warning for points of the wrong dimension", e.warned <=> Len(e.X[1]) # e.d>> >>

Level(e) ==
    LET a == e.op[2]
        b == e.before.limits[a]
        f == e.after.limits[a]
        range(x) == Abs(x[2] - x[1])
        big == MaxOf({range(b[k]) : k \in 1..3})
    IN << <<"all ranges equal the largest", \A k \in 1..3 : Near(range(f[k]), big, 3)>>,
          <<"around unchanged centres", \A k \in 1..3 : Near(f[k][1] + f[k][2], b[k][1] + b[k][2], 4)>> >>

Step(e0, s) ==
    LET op == e0.op
        t == Target(s, op)
        e == e0 @@ [target |-> t]
        s1 == Apply(s, op)
        drawn(a) == [k \in Kinds |-> Cardinality({i \in DOMAIN e.after.held[a] : KindOf(e.after.held[a][i]) = k})]
        new == e.new[t]
        content == CASE op[1] \in {"scatter", "grid"} -> Boxes(e, Of("box", new))
                     [] op[1] = "proj" -> ProjBoundary(new)
                     [] op[1] = "halves" -> HalvesBoundary(new)
                     [] op[1] = "mesh" -> Wires(e, new)
                     [] op[1] = "rp2" -> ProjBoundary(new) \o Dots(e, new)
                     [] op[1] = "rp3" -> Dots(e, new)
                     [] op[1] = "rp3sphere" -> Dots(e, new) \o Wires(e, new)
                     [] op[1] = "level" -> Level(e)
                     [] OTHER -> <<>>
    IN << <<"works: " \o e.exc, e.ok>>,
          <<"current axes as they were", e.after.cur = s1.cur>>,
          <<"no other figures or axes", e.after.figures = 2 /\ e.after.axes = 4>>,
          <<"drawn exactly what is asked for, where it is asked for", e.ok => \A a \in Axes : drawn(a) = s1.drawn[a] /\ Len(e.after.held[a]) = SumSeq([k \in 1..5 |-> drawn(a)[<<"box", "line", "arrow", "dots", "mesh">>[k]]])>>,
          <<"what was there stays", \A a \in Axes : e.kept[a]>>,
          <<"the other axes stay", op[1] = "current" \/ \A a \in Axes \ {t} : e.before.limits[a] = e.after.limits[a] /\ e.before.look[a] = e.after.look[a] /\ e.new[a] = <<>> >>,
          <<"ticks and aspect", e.ok => \A a \in Flat : (a \in s1.noticks => e.after.look[a][1]) /\ (a \in s1.equal => e.after.look[a][2])>>,
          <<"returns the axes", (e.ok /\ op[1] \in {"scatter", "grid", "proj", "halves", "mesh", "level"}) => e.result = t>> >>
       \o (IF e.ok THEN content ELSE <<>>)

JudgePlot(e) ==
    LET S(i) == After(Blank, [j \in 1..(i - 1) |-> e.steps[j].op])
        at(i) == [c \in DOMAIN Step(e.steps[i], S(i)) |-> <<e.steps[i].op[1] \o ": " \o Step(e.steps[i], S(i))[c][1], Step(e.steps[i], S(i))[c][2]>>]
    IN FlattenSeq([i \in DOMAIN e.steps |-> at(i)])

MyJudge(e) == IF e.kind = "plot" THEN JudgePlot(e) ELSE << <<e.what, FALSE>> >>
=============================================================================
