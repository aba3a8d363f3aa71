-------------------------------- MODULE T_Ppca --------------------------------
(* C13: recorded calls of the projective dimension reduction.                    *)
EXTENDS TraceKit, Reduction

Tol == 25

(* a second run on changed input: Y2[q] should be s[q] times Y[q] up to one unitary *)
Variant(e, v) ==
    v.ok /\ Len(v.Y) = Len(v.pts) /\ (\A a \in DOMAIN v.pts : Usable(v.Y[a]) /\ Usable(e.Y[v.pts[a]])) /\
    \A a, b \in DOMAIN v.pts : (a < b /\ Anchored(Len(v.pts), a)) =>
        Close(Inner(v.Y[a], v.Y[b]), Times(Times(v.s[a], Conj(v.s[b])), Inner(e.Y[v.pts[a]], e.Y[v.pts[b]])), 60)

JudgePpca(e) ==
    IF ~e.ok THEN << <<"returns: " \o e.exc, FALSE>> >>
    ELSE LET shape == e.shape = e.want
             F == e.X
             num == {q \in DOMAIN F : e.isnum[q]}
             usable == shape /\ \A q \in num : Usable(e.Y[q])
         IN << <<"one vector of the requested length for every point", shape>>,
               <<"undefined exactly where the input is", shape => \A q \in DOMAIN F : (q \in num) = (\A i \in DOMAIN e.Y[q] : e.Y[q][i][1] # Nan /\ e.Y[q][i][2] # Nan)>>,
               <<"unit vectors", usable /\ \A q \in num : Near(Inner(e.Y[q], e.Y[q])[1], Unit, 10 + 2 * Len(e.Y[q]))>>,
               <<"real data give real results", (usable /\ e.real) => \A q \in num : \A i \in DOMAIN e.Y[q] : e.Y[q][i][2] = 0>>,
               <<"data in a subspace of the target dimension keep their inner products",
                  (usable /\ e.sub) => \A q, s \in num : (q < s /\ Anchored(Len(F), q)) => Close(Inner(F[q], F[s]), Inner(e.Y[q], e.Y[s]), 60)>>,
               <<"input unchanged", e.unchanged>>,
               <<"one variance for each direction but the last", e.varshape = <<e.d - 1>> /\ \A i \in DOMAIN e.var : e.var[i] >= 0>>,
               <<"silent unless asked", e.silent>> >>
            \o [i \in DOMAIN e.variants |-> <<"equivariance: " \o e.variants[i].name, usable /\ Variant(e, e.variants[i])>>]
            \o [i \in DOMAIN e.variants |-> <<"same variances: " \o e.variants[i].name,
                   e.variants[i].samevar => (Len(e.var) = Len(e.variants[i].var) /\ \A t \in DOMAIN e.var : Near(e.var[t], e.variants[i].var[t], 40))>>]

(* a run explained by witnessed steps: keeps the principal directions             *)
JudgeSteps(e) ==
    LET pts(i) == IF i = 0 THEN e.X ELSE e.steps[i].G
        witnessed == \A i \in DOMAIN e.steps : LET t == e.steps[i] IN Step(pts(i - 1), t.W, t.lam, t.k, t.r, t.G, Tol)
        clear == \A i \in DOMAIN e.steps : LET t == e.steps[i] IN
                     /\ t.lam[t.k] - t.lam[t.k + 1] > 3 * Tol
                     /\ \A q \in DOMAIN t.r : t.r[q] >= 1500
        ks == [i \in DOMAIN e.steps |-> e.steps[i].k]
        last == pts(Len(e.steps))
        \* mean squared sine of the angle between the points and the direction dropped first
        w == e.steps[1].W[Len(e.steps[1].W)]
        sq == LET a == TLCEval([q \in DOMAIN e.X |-> Inner(e.X[q], w)])
              IN FoldLeft(LAMBDA s, q : s + Sq(a[q][1]) \div Unit + Sq(a[q][2]) \div Unit, 0, [q \in DOMAIN e.X |-> q]) \div Len(e.X)
    IN IF ~e.ok THEN << <<"returns: " \o e.exc, FALSE>> >>
       ELSE << <<"the witnesses are those of the reduction", ks = Schedule(e.mode, e.d, e.m + 1) /\ witnessed>>,
               <<"keeps the directions of largest variance", clear => (Len(e.Y) = Len(last) /\ (\A q \in DOMAIN e.Y : Len(e.Y[q]) = e.m + 1 /\ Usable(e.Y[q])) /\ SameInner(last, e.Y, 60))>>,
               <<"variance of the first direction dropped", (clear /\ e.mode = "one-by-one") =>
                    (e.var[Len(e.var)] >= sq - Tol /\ e.var[Len(e.var)] <= (sq * 5) \div 2 + Tol)>> >>

MyJudge(e) == CASE e.kind = "ppca" -> JudgePpca(e)
                [] e.kind = "steps" -> JudgeSteps(e)
                [] OTHER -> << <<e.what, FALSE>> >>
=============================================================================
