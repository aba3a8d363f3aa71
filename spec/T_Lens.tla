-------------------------------- MODULE T_Lens --------------------------------
(* C10, C11: recorded runs of real projective and lens coordinates.             *)
EXTENDS TraceKit, CircleMaps

(* exponent of the root of unity in a phase given in 10^-5 turns, -1 if none      *)
Exponent(a, p) == LET x == p * Wrap(a, 100000)
                      m == (x + 50000) \div 100000
                  IN IF Abs(x - m * 100000) <= 3000 THEN m % p ELSE -1

JudgeOk(e) ==
    LET n == e.n
        p == e.p
        thr == e.thr
        rad == thr \div 2
        N == Len(e.cols)
        E == TLCEval(RipsEdges(e.D, n, thr, 1))
        c == TLCEval(Table1(n, LiftRows(e.rows, p)))
        ins == TLCEval([q \in 1..N |-> Inside(e.cols[q], rad)])
        shape == e.shape = e.want
        cov == {q \in 1..N : ins[q] # {}}
        num(q) == \A k \in 1..n : e.mod2[q][k] # Nan
        good == TLCEval({q \in cov : num(q) /\ Resolved(e.bump, e.table, e.cols[q], ins[q], rad)})
        \* balls in which the point's entry is large enough to have a phase
        seen == TLCEval([q \in 1..N |-> IF q \in good THEN {k \in ins[q] : e.mod2[q][k + 1] >= 20} ELSE {}])
        step(q, j, k) == Exponent(e.arg[q][k + 1] - e.arg[q][j + 1], p)
        \* transition from ball j to ball k, read off one point in both
        T == TLCEval([x \in E |-> LET w == SelectInSeq([q \in 1..N |-> q], LAMBDA q : x[1] \in seen[q] /\ x[2] \in seen[q])
                                  IN IF w = 0 THEN -1 ELSE step(w, x[1], x[2])])
        edge(a, b) == IF a < b THEN T[<<a, b>>] ELSE (p - T[<<b, a>>]) % p
        onloop(lp) == Sum(DOMAIN lp, LAMBDA i : edge(lp[i], lp[IF i = Len(lp) THEN 1 ELSE i + 1]))
        known(lp) == \A i \in DOMAIN lp : LET a == lp[i] b == lp[IF i = Len(lp) THEN 1 ELSE i + 1]
                                        IN T[IF a < b THEN <<a, b>> ELSE <<b, a>>] >= 0
        loopsok == \A i \in DOMAIN e.loops : IsLoop(e.loops[i], E)
    IN << <<"one vector of the full length for every data point", shape>>,
          <<"points in no ball are not numbers, covered ones are", shape => \A q \in 1..N : IF ins[q] = {} THEN ~num(q) ELSE num(q)>>,
          <<"unit vectors", shape => \A q \in cov : num(q) => Near(SumSeq(e.mod2[q]), 10000, n + 2)>>,
          <<"squared entries are the partition of unity weights", shape => \A q \in good :
               LET phi == Weights(e.bump, e.table, e.cols[q], ins[q], rad)
               IN \A k \in Vertices(n) : Near(e.mod2[q][k + 1], IF k \in ins[q] THEN phi[k] ELSE 0, 3)>>,
          <<"every edge at the scale is seen", (shape /\ good # {}) => \A x \in E :
               (\E q \in good : {x[1], x[2]} \subseteq seen[q]) => T[x] >= 0>>,
          <<"another ball changes the vector by a root of unity", shape => \A q \in good : \A j, k \in seen[q] :
               (j < k /\ <<j, k>> \in E /\ T[<<j, k>>] >= 0) => step(q, j, k) = T[<<j, k>>]>>,
          <<"loops are loops at the scale", loopsok>>,
          <<"around every loop, the value of the class", (shape /\ loopsok) => \A i \in DOMAIN e.loops :
               known(e.loops[i]) => (onloop(e.loops[i]) - OnLoop(c, e.loops[i])) % p = 0>>,
          <<"input unchanged", e.unchanged>>,
          <<"reduced coordinates: vectors of the requested length", e.redshape = e.redwant>>,
          <<"reduced coordinates: unit vectors", \A q \in DOMAIN e.rednorm : e.rednorm[q] = Nan \/ Near(e.rednorm[q], 10000, 4)>>,
          <<"reduced coordinates are the reduction of the unreduced ones", e.g1 # <<>> => 
               \A i \in DOMAIN e.g1 : \A j \in DOMAIN e.g1[i] : e.g1[i][j] = e.g2[i][j] \/ Near(e.g1[i][j], e.g2[i][j], 20)>> >>

JudgeLens(e) ==
    LET feas == Feasible(<<e.birth>>, <<e.death>>, e.sr)
    IN IF ~feas THEN << <<"a start beyond the death must fail", ~e.ok /\ ~e.okred>> >>
       ELSE IF ~e.ok \/ ~e.okred THEN << <<"returns coordinates: " \o e.exc \o " " \o e.excred, FALSE>> >>
       ELSE JudgeOk(e)

MyJudge(e) == CASE e.kind = "lens" -> JudgeLens(e)
                [] OTHER -> << <<e.what, FALSE>> >>
=============================================================================
