------------------------------- MODULE T_Torus -------------------------------
(* C04-C09: recorded runs of circular and toroidal coordinates.                 *)
EXTENDS TraceKit, CircleMaps, Lattice

Group == IOEnv.PROP
Only(ids, clauses) == IF Group \in ids THEN clauses ELSE <<>>

Lifts(e) == [i \in DOMAIN e.classes |-> LiftRows(e.classes[i].rows, e.p)]
Births(e) == [i \in DOMAIN e.classes |-> e.classes[i].birth]
Deaths(e) == [i \in DOMAIN e.classes |-> e.classes[i].death]

(* chains of triangles witnessing that the class has no integer lift: closed     *)
(* modulo p, where the coboundary of the lift, divided by p, is not 0 modulo p   *)
Obstructs(ch, c, n, T, p) ==
    /\ ch # <<>>
    /\ \A i \in DOMAIN ch : SubSeq(ch[i], 1, 3) \in T
    /\ IsClosedSurface(ch, n, p)
    /\ Sum(DOMAIN ch, LAMBDA i : ch[i][4] * (D1(c, ch[i]) \div p)) % p # 0

JudgeError(e) ==
    LET feas == Feasible(Births(e), Deaths(e), e.sr)
        n == e.n
        E == RipsEdges(e.D, n, e.thr, 1)
        T == RipsTriangles(n, E)
        c == [i \in DOMAIN e.classes |-> Table1(n, Lifts(e)[i])]
        obstructed == {i \in DOMAIN e.obstruction : Obstructs(e.obstruction[i], c[i], n, T, e.p)}
    IN Only({"C05", "C07", "C08", "C09"}, << <<"error on a feasible request: " \o e.exc \o " " \o e.msg, 
                 ~feas \/ (e.check /\ obstructed # {})
                 \* several classes, none of them alive strictly below the scale: no basis to reduce
                 \/ (Len(e.classes) > 1 /\ ~Alive(Births(e), Deaths(e), e.sr, e.perc8))>> >>)
       \o Only({"C04"}, << <<"error without a class that has no integer lift: " \o e.exc \o " " \o e.msg,
                 (feas /\ (Len(e.classes) = 1 \/ Alive(Births(e), Deaths(e), e.sr, e.perc8))) => e.check /\ obstructed # {}>>,
              <<"the error names the class that was requested", 
                 (feas /\ obstructed # {}) => \E i \in obstructed : e.idxs[i] \in Range(e.named)>> >>)

JudgeMaps(e) ==
    LET U == e.unit
        n == e.n
        r == Len(e.classes)
        feas == Feasible(Births(e), Deaths(e), e.sr)
        thr == e.thr
        rad == thr \div 2
        E == TLCEval(RipsEdges(e.D, n, thr, 1))
        T == TLCEval(RipsTriangles(n, E))
        ins == TLCEval([q \in DOMAIN e.cols |-> Inside(e.cols[q], rad)])
        nan(q) == \A m \in 1..r : e.theta[m][q] = Nan
        num(q) == \A m \in 1..r : e.theta[m][q] \in 0..U
        shape == /\ e.nmaps = r /\ Len(e.theta) = r
                 /\ \A m \in 1..r : Len(e.theta[m]) = e.ncols
        covered == shape /\ \A q \in DOMAIN e.cols : ins[q] # {} => num(q)
        ph == e.bump # "flat"
        \* cochain of changes along the edges, one table per map
        inc == TLCEval([m \in 1..r |-> IncrementTable(n, e.paths, e.theta[m], U)])
        \* value at a point of ball j alone
        priv(j) == SelectInSeq(ins, LAMBDA s : s = {j})
        tau == TLCEval([m \in 1..r |-> [j \in 1..n |-> e.theta[m][priv(j - 1)]]])
        probes == {q \in DOMAIN e.cols : /\ ins[q] # {} /\ Admissible(e.cols[q], e.D, ins[q])
                                        /\ Resolved(e.bump, e.table, e.cols[q], ins[q], rad)}
        formula(m, q) == LET phi == Weights(e.bump, e.table, e.cols[q], ins[q], rad)
                         IN \A j \in ins[q] : CircNear(e.theta[m][q], Chart(tau[m], inc[m], phi, j, U), U, 80)
        \* continuity along the recorded paths and between neighbouring weights
        lifted == TLCEval([i \in 1..r |-> Table1(n, Lifts(e)[i])])
        already(i) == IsCocycle1(lifted[i], T)
        L == Len(e.loops)
        loopsok == \A i \in 1..L : IsLoop(e.loops[i], E)
        wind(m, i) == OnLoop(inc[m], e.loops[i])
        whole(m, i) == Near(wind(m, i), U * Round(wind(m, i), U), 150)
        W == [m \in 1..r |-> [i \in 1..L |-> Round(wind(m, i), U)]]
        C == [m \in 1..r |-> [i \in 1..L |-> OnLoop(lifted[m], e.loops[i])]]
        hasM == r = 1 \/ e.M # <<>>
        M == IF r = 1 THEN <<<<1>>>> ELSE e.M
        Mok == IsSquare(M, r) /\ UnimodularMod(M)
        \* windings of the maps returned are M times the classes'; classes that had to be repaired agree modulo p
        allalready == ~e.check \/ \A i \in 1..r : already(i)
        MC(q) == MulMod(M, C, q)
        neg(X) == [i \in DOMAIN X |-> [j \in DOMAIN X[i] |-> -X[i][j]]]
        agree == L = 0 \/ IF allalready
                 THEN \/ EqMod(W, MC(Q1), Q1) /\ EqMod(W, MC(Q2), Q2)
                      \/ e.p = 2 /\ EqMod(neg(W), MC(Q1), Q1) /\ EqMod(neg(W), MC(Q2), Q2)
                 ELSE EqMod(W, MC(e.p), e.p)
        usable == feas /\ covered
        short == \A m \in 1..r : \A x \in E : Abs(At(inc[m], x[1], x[2])) <= 4 * U
        \* changes along edges too large to be followed in the recorded steps show elsewhere first
        followed == \A m \in 1..r : \A q \in probes : formula(m, q)
        Gram == TLCEval([a \in 1..r |-> [b \in 1..r |->
                  Sum(E, LAMBDA x : ((At(inc[a], x[1], x[2]) \div 10) * (At(inc[b], x[1], x[2]) \div 10)) \div 1000)]])
        \* Gram matrix of the maps, in units of 10^-5 (squared turns)
    IN Only({"C05"}, <<
          <<"a request without a common lifetime or with the start beyond the death must fail", feas>>,
          <<"scale recorded by the harness is the documented one", feas => 8 * thr = Scale8(Births(e), Deaths(e), e.sr, e.perc8)>>,
          <<"reported scale and radius", feas => (e.rthr = <<>> \/ (Near(e.rthr[1], 1000 * thr, 2) /\ Near(e.rcov[1], 500 * thr, 2)))>>,
          <<"coordinates exactly for the points strictly inside some ball",
             (feas /\ shape) => \A q \in DOMAIN e.cols : IF ins[q] # {} THEN num(q) ELSE nan(q)>>,
          <<"edges at the scale: flat exactly on the triangles strictly below it, and balanced over the edges strictly below it",
             (usable /\ ph /\ e.check) => \A m \in 1..r : \A j \in Vertices(n) : Near(Flux(inc[m], E, j), 0, 40)>> >>)
       \o Only({"C06"}, <<
          <<"a point with one ball has that ball's value; weights of several balls as the bump function says",
             usable => \A m \in 1..r : \A q \in probes : formula(m, q)>>,
          <<"points in no ball are not numbers, all others are", 
             (feas /\ shape) => \A q \in DOMAIN e.cols : IF ins[q] # {} THEN num(q) ELSE nan(q)>>,
          <<"one warning when there are uncovered points, none otherwise",
             feas => e.warns = (IF \E q \in DOMAIN e.cols : ins[q] = {} THEN 1 ELSE 0)>> >>)
       \o Only({"C07"}, <<
          <<"one value per data point and map", shape /\ e.lens = [m \in 1..r |-> e.ncols]>>,
          <<"values lie in the circle's range", shape => \A q \in DOMAIN e.cols : num(q) \/ nan(q)>>,
          <<"no covered point is without value", covered>>,
          <<"same value from every ball containing the point", usable => \A m \in 1..r : \A q \in probes : formula(m, q)>>,
          <<"no winding around triangles at the scale", 
             (usable /\ ph /\ e.check) => \A m \in 1..r : \A t \in T : Near(D1(inc[m], t), 0, 30)>>,
          <<"whole winding numbers on every loop", (usable /\ ph /\ loopsok) => \A m \in 1..r : \A i \in 1..L : whole(m, i)>>,
          <<"loops are loops at the scale", loopsok>>,
          <<"windings are those of the class", (usable /\ ph /\ hasM /\ Mok) => agree>> >>)
       \o Only({"C04"}, <<
          <<"the selected class, or its lift, keeps its windings", (usable /\ ph /\ hasM /\ Mok) => agree>>,
          <<"an integer cocycle at the scale", (usable /\ ph /\ e.check) => \A m \in 1..r : \A t \in T : Near(D1(inc[m], t), 0, 30)>>,
          <<"whole windings", (usable /\ ph) => \A m \in 1..r : \A i \in 1..L : whole(m, i)>>,
          <<"one map per class", shape>> >>)
       \o Only({"C08"}, <<
          <<"changes along the edges sum to zero at every landmark",
             (usable /\ ph) => \A m \in 1..r : \A j \in Vertices(n) : Near(Flux(inc[m], E, j), 0, 40)>>,
          <<"every value is a landmark's plus the weighted changes from it",
             usable => \A m \in 1..r : \A q \in probes : formula(m, q)>> >>)
       \o Only({"C09"}, IF r = 1 THEN <<>> ELSE <<
          <<"one map per requested class", shape /\ e.lens = [m \in 1..r |-> e.ncols]>>,
          <<"reported change of basis is unimodular", e.M = <<>> \/ Mok>>,
          <<"maps are the reported combination of the classes", (usable /\ ph /\ Mok /\ e.M # <<>> /\ followed) => agree>>,
          <<"length reduced and exchange condition", (usable /\ ph /\ shape /\ followed) => short /\ Reduced(Gram, r)>>,
          <<"reported Gram matrix is that of the maps", (usable /\ ph /\ short /\ followed /\ e.gram # <<>>) =>
               \A a, b \in 1..r : Near(e.gram[a][b] * 10, Gram[a][b], 60 + Len(e.paths))>>,
          <<"reported original Gram matrix is that of the classes", (usable /\ ph /\ e.gram0 # <<>> /\ e.gram # <<>> /\ e.M # <<>> /\ Mok /\ e.g0unit > 0) =>
               LET X == MatMul(M, MatMul(e.gram0, Transpose(M)))
                   big == 1 + Sum(1..r, LAMBDA a : Sum(1..r, LAMBDA b : Abs(M[a][b])))
               IN \A a, b \in 1..r : Near(X[a][b], e.gram[a][b] \div (10000 \div e.g0unit), big * big)>> >>)

MyJudge(e) == CASE e.kind = "torus" -> IF e.ok THEN JudgeMaps(e) ELSE JudgeError(e)
                [] OTHER -> << <<e.what, FALSE>> >>
=============================================================================
