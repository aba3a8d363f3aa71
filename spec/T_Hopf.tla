-------------------------------- MODULE T_Hopf --------------------------------
(* C12 (and degree two of C04): recorded runs of complex projective coordinates.  *)
EXTENDS TraceKit, Hopf

U == 100000
Group == IOEnv.PROP

Obstructs(ch, c, n, Q, p) ==
    LET tri(x) == <<<<x[2], x[3], x[4], x[5]>>, <<x[1], x[3], x[4], -x[5]>>, <<x[1], x[2], x[4], x[5]>>, <<x[1], x[2], x[3], -x[5]>>>>
        all == FlattenSeq([i \in DOMAIN ch |-> tri(ch[i])])
        on(t) == FoldLeft(LAMBDA s, x : IF SubSeq(x, 1, 3) = t THEN s + x[4] ELSE s, 0, all)
    IN /\ ch # <<>>
       /\ \A i \in DOMAIN ch : SubSeq(ch[i], 1, 4) \in Q
       /\ \A i \in DOMAIN all : on(SubSeq(all[i], 1, 3)) % p = 0
       /\ Sum(DOMAIN ch, LAMBDA i : ch[i][5] * (Div3(c, ch[i]) \div p)) % p # 0

JudgeError(e) ==
    LET feas == Feasible(<<e.birth>>, <<e.death>>, e.sr)
        n == e.n
        E == RipsEdges(e.D, n, e.thr, 1)
        T == RipsTriangles(n, E)
        c == FromTwo(n, Table2(LiftRows(e.rows, e.p)))
        none == e.check /\ feas /\ Obstructs(e.obstruction, c, n, RipsTetra(n, E, T), e.p)
    IN << <<"error on a feasible request: " \o e.exc, ~feas \/ none>>,
          <<"the error names the class that was requested", none => e.idx \in Range(e.named)>>,
          <<"no coordinates in a lower dimension either", ~e.okred>> >>

JudgeOk(e) ==
    LET n == e.n
        p == e.p
        feas == Feasible(<<e.birth>>, <<e.death>>, e.sr)
        thr == e.thr
        rad == thr \div 2
        N == Len(e.cols)
        E == TLCEval(RipsEdges(e.D, n, thr, 1))
        T == TLCEval(RipsTriangles(n, E))
        Q == TLCEval(RipsTetra(n, E, T))
        \* the symmetric lift, at the triangles of the scale
        lifted == FromTwo(n, Table2(LiftRows(e.rows, p)))
        already == \A s \in Q : Div3(lifted, s) = 0
        ins == TLCEval([q \in 1..N |-> Inside(e.cols[q], rad)])
        shape == e.shape = e.want
        cov == {q \in 1..N : ins[q] # {}}
        num(q) == \A k \in 1..n : e.mod2[q][k] # Nan
        good == TLCEval({q \in cov : num(q) /\ Resolved(e.bump, e.table, e.cols[q], ins[q], rad)})
        weights == TLCEval([q \in 1..N |-> IF q \in good THEN Weights(e.bump, e.table, e.cols[q], ins[q], rad) ELSE <<>>])
        seen == TLCEval([q \in 1..N |-> IF q \in good THEN {k \in ins[q] : e.mod2[q][k + 1] >= 20} ELSE {}])
        psi(q, i, j) == Wrap(e.arg[q][i + 1] - e.arg[q][j + 1], U)
        admissible == {q \in good : Admissible(e.cols[q], e.D, ins[q])}
        \* connection: phase between two balls at a point in these two only
        onlyin == TLCEval([x \in E |-> SelectInSeq(seen, LAMBDA s : s = {x[1], x[2]})])
        two(x) == onlyin[x] > 0 /\ ins[onlyin[x]] = {x[1], x[2]}
        nu == Table1(n, [i \in DOMAIN SetToSeq(E) |-> LET x == SetToSeq(E)[i] IN <<x[1], x[2], IF two(x) THEN psi(onlyin[x], x[1], x[2]) ELSE 0>>])
        \* curvature: the witness, accepted only if the phases grow by it along every recorded path
        eta == FromTwo(n, [t \in {SubSeq(e.eta[i], 1, 3) : i \in DOMAIN e.eta} |-> e.eta[CHOOSE i \in DOMAIN e.eta : SubSeq(e.eta[i], 1, 3) = t][4]])
        pathok(x) == LET w(s) == weights[x[s] + 1][x[3]]
                     IN /\ \A s \in 4..Len(x) : ins[x[s] + 1] = {x[1], x[2], x[3]} /\ (x[s] + 1) \in good
                        /\ Len(x) >= 6
                        /\ w(4) <= 1600
                        /\ \A s \in 5..Len(x) : w(s) - w(s - 1) \in 1..1600
                        /\ w(Len(x)) >= 2000
        measured == e.paths # <<>> /\ {SubSeq(x, 1, 3) : x \in Range(e.paths)} = T /\ (\A i \in DOMAIN e.paths : pathok(e.paths[i]))
                    /\ {SubSeq(e.eta[i], 1, 3) : i \in DOMAIN e.eta} = T /\ \A x \in E : two(x)
        bounded == \A i \in DOMAIN e.eta : Abs(e.eta[i][4]) <= 3 * U
        closedok == e.check \/ already
        use == TLCEval(shape /\ feas /\ measured /\ closedok)
        cur == TLCEval([i \in DOMAIN e.chainsp |-> OnChain(eta, e.chainsp[i])])
        bd == TLCEval([i \in DOMAIN e.chainsp |-> Boundary(n, e.chainsp[i])])
        flow(i) == Sum(E, LAMBDA x : At(bd[i], x[1], x[2]) * At(nu, x[1], x[2]))
        chainp == \A i \in DOMAIN e.chainsp : \A t \in DOMAIN e.chainsp[i] : SubSeq(e.chainsp[i][t], 1, 3) \in T
        closedp == \A i \in DOMAIN e.chainsp : \A x \in E : At(bd[i], x[1], x[2]) % p = 0
        chainz == \A i \in DOMAIN e.chainsz : \A t \in DOMAIN e.chainsz[i] : SubSeq(e.chainsz[i][t], 1, 3) \in T
        closedz == \A i \in DOMAIN e.chainsz : LET b == Boundary(n, e.chainsz[i]) IN \A x \in E : At(b, x[1], x[2]) = 0
        wob(ch) == 200 + 60 * FoldLeft(LAMBDA s, x : s + Abs(x[4]), 0, ch)
        exact(s) == \A i \in DOMAIN e.chainsz : Near(OnChain(eta, e.chainsz[i]), s * U * OnChain(lifted, e.chainsz[i]), wob(e.chainsz[i]))
    IN << <<"a start beyond the death must fail", feas>>,
          <<"one vector of the full length for every data point", shape>>,
          <<"points in no ball are not numbers, covered ones are", (shape /\ feas) => \A q \in 1..N : IF ins[q] = {} THEN ~num(q) ELSE num(q)>>,
          <<"one warning when there are uncovered points, none otherwise", feas => e.warns = (IF \E q \in 1..N : ins[q] = {} THEN 1 ELSE 0)>>,
          <<"unit vectors", (shape /\ feas) => \A q \in cov : num(q) => Near(SumSeq(e.mod2[q]), 10000, n + 2)>>,
          <<"squared entries are the partition of unity weights", (shape /\ feas) => \A q \in good :
               \A k \in Vertices(n) : Near(e.mod2[q][k + 1], IF k \in ins[q] THEN weights[q][k] ELSE 0, 3)>>,
          <<"whichever ball: phases between balls are connection plus weighted curvature", use => bounded /\ \A q \in admissible : \A i, j \in seen[q] :
               i < j => CircNear(psi(q, i, j), Against(nu, eta, weights[q], i, j), U, 150)>>,
          <<"no curvature on the boundary of a tetrahedron", use => bounded /\ \A s \in Q : Near(Div3(eta, s), 0, 250)>>,
          <<"curvature and holonomy agree on every triangle", use => bounded /\ \A t \in T : CircNear(Curl(nu, t), -At3(eta, t[1], t[2], t[3]), U, 200)>>,
          <<"witness chains are closed chains at the scale", e.paths # <<>> => chainp /\ closedp /\ chainz /\ closedz>>,
          <<"on every surface closed modulo the prime, the value of the class", (use /\ bounded /\ chainp /\ closedp) => \A i \in DOMAIN e.chainsp :
               CircNear(cur[i] + flow(i), U * OnChain(lifted, e.chainsp[i]), U * p, 20000)>>,
          <<"whole turns on every closed surface", (use /\ bounded /\ chainz /\ closedz) => \A i \in DOMAIN e.chainsz :
               CircNear(OnChain(eta, e.chainsz[i]), 0, U, wob(e.chainsz[i]))>>,
          <<"exactly the lift's value on every closed surface when it is a cocycle", (use /\ bounded /\ already /\ chainz /\ closedz) => exact(1) \/ (p = 2 /\ exact(-1))>>,
          <<"curvature is balanced at every edge", (use /\ bounded) => \A x \in E :
               Near(Sum({k \in Vertices(n) : \E t \in T : {x[1], x[2], k} = Range(t)}, LAMBDA k : At3(eta, x[1], x[2], k)), 0, 300)>>,
          <<"input unchanged", e.unchanged>>,
          <<"reduced coordinates: vectors of the requested length", e.redshape = e.redwant>>,
          <<"reduced coordinates: unit vectors", \A q \in DOMAIN e.rednorm : e.rednorm[q] = Nan \/ Near(e.rednorm[q], 10000, 4)>>,
          <<"reduced coordinates are the reduction of the unreduced ones", e.g1 # <<>> =>
               \A i \in DOMAIN e.g1 : \A j \in DOMAIN e.g1[i] : e.g1[i][j] = e.g2[i][j] \/ Near(e.g1[i][j], e.g2[i][j], 20)>> >>

ForLifts == {"on every surface closed modulo the prime, the value of the class", "no curvature on the boundary of a tetrahedron", "whole turns on every closed surface",
             "exactly the lift's value on every closed surface when it is a cocycle", "witness chains are closed chains at the scale"}
Mine(clauses) == IF Group = "C04" THEN SelectSeq(clauses, LAMBDA x : x[1] \in ForLifts) ELSE clauses

MyJudge(e) == CASE e.kind = "hopf" -> IF e.ok /\ e.okred THEN Mine(JudgeOk(e)) ELSE IF e.ok THEN << <<"fails in a lower dimension only: " \o e.excred, FALSE>> >> ELSE JudgeError(e)
                [] OTHER -> << <<e.what, FALSE>> >>
=============================================================================
