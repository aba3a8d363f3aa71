------------------------------- MODULE LiftModel -------------------------------
(* From a class modulo P to the integer cocycle that is integrated, or an error.   *)
(* The object's cocycle is lifted to the symmetric range; if that is no integer     *)
(* cocycle on the triangles, either an integer cocycle congruent to it takes its    *)
(* place, or there is none, and then a chain of triangles that is closed modulo P   *)
(* shows it.                                                                        *)
EXTENDS Simplices

CONSTANTS Shape, P

(* triangles are given: not every complex here is a flag complex                    *)
Shapes == [tetra |-> [n |-> 4, T |-> {<<0, 1, 2>>, <<0, 1, 3>>, <<0, 2, 3>>, <<1, 2, 3>>}, extra |-> {}],
           band |-> [n |-> 5, T |-> {<<0, 1, 2>>, <<1, 2, 3>>, <<2, 3, 4>>, <<0, 3, 4>>, <<0, 1, 4>>}, extra |-> {}],
           annulus |-> [n |-> 5, T |-> {<<0, 1, 2>>, <<0, 2, 3>>}, extra |-> {<<3, 4>>, <<0, 4>>}],
           rp2 |-> [n |-> 6, T |-> {<<0, 1, 3>>, <<0, 1, 4>>, <<0, 2, 4>>, <<0, 2, 5>>, <<0, 3, 5>>, <<1, 2, 3>>, <<1, 2, 5>>, <<1, 4, 5>>, <<2, 3, 4>>, <<3, 4, 5>>}, extra |-> {}]]
X == Shapes[Shape]
N == X.n
T == X.T
E == UNION {{<<t[1], t[2]>>, <<t[1], t[3]>>, <<t[2], t[3]>>} : t \in T} \cup X.extra
ES == SetToSeq(E)

VARIABLES class, lift, used, phase
vars == <<class, lift, used, phase>>

Tab(f) == Table1(N, [i \in 1..Len(ES) |-> <<ES[i][1], ES[i][2], f[ES[i]]>>])
D(f, t) == f[<<t[1], t[2]>>] + f[<<t[2], t[3]>>] - f[<<t[1], t[3]>>]
Closed(f) == \A t \in T : D(f, t) = 0
ClosedMod(f) == \A t \in T : D(f, t) % P = 0
(* the cocycles modulo P: fixed on a spanning tree up to coboundary                 *)
Tree == {<<0, k>> : k \in 1..(N - 1)} \cap E
Vanish(f) == \A e \in Tree : f[e] = 0
Gauge == [1..(N - 1) -> 0..(P - 1)]
At0(g, v) == IF v = 0 THEN 0 ELSE g[v]
Reps == TLCEval({f \in [E \ Tree -> 0..(P - 1)] : LET h == [e \in E |-> IF e \in Tree THEN 0 ELSE f[e]] IN ClosedMod(h)})

Init == /\ \E f \in Reps : \E g \in Gauge :
              class = [e \in E |-> ((IF e \in Tree THEN 0 ELSE f[e]) + At0(g, e[2]) - At0(g, e[1])) % P]
        /\ lift = [e \in E |-> 0] /\ used = [e \in E |-> 0] /\ phase = "class"
DoLift == /\ phase = "class"
          /\ lift' = [e \in E |-> Lift(class[e], P)]
          /\ phase' = "lifted" /\ UNCHANGED <<class, used>>
Keep == /\ phase = "lifted" /\ Closed(lift)
        /\ used' = lift /\ phase' = "integrate" /\ UNCHANGED <<class, lift>>
(* integer cocycles congruent to the class: those that vanish on the tree, changed by coboundaries *)
Half == P \div 2
Whole == TLCEval({f \in [E \ Tree -> (-Half)..Half] : LET h == [e \in E |-> IF e \in Tree THEN 0 ELSE f[e]] IN Closed(h)})
Sums == TLCEval({[e \in E |-> (IF e \in Tree THEN 0 ELSE f[e]) + At0(g, e[2]) - At0(g, e[1])] : f \in Whole, g \in Gauge})
Candidates == {x \in Sums : \A e \in E : (x[e] - class[e]) % P = 0}
Repair == /\ phase = "lifted" /\ ~Closed(lift)
          /\ \E x \in Candidates : used' = x
          /\ phase' = "integrate" /\ UNCHANGED <<class, lift>>
(* a chain of all triangles with signs, closed modulo P, on which dL/P is not 0      *)
Chains == {w \in [T -> 0..(P - 1)] : \A e \in E :
             Sum({t \in T : {e[1], e[2]} \subseteq {t[1], t[2], t[3]}},
                 LAMBDA t : w[t] * (IF e = <<t[1], t[3]>> THEN -1 ELSE 1)) % P = 0}
Cycles == TLCEval(Chains)
Obstructed == \E w \in Cycles : Sum(T, LAMBDA t : w[t] * (D(lift, t) \div P)) % P # 0
Fail == /\ phase = "lifted" /\ ~Closed(lift) /\ Obstructed
        /\ phase' = "error" /\ UNCHANGED <<class, lift, used>>
Next == DoLift \/ Keep \/ Repair \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Residues == phase # "class" => \A e \in E : (lift[e] - class[e]) % P = 0 /\ 2 * Abs(lift[e]) <= P /\ (lift[e] = 0 <=> class[e] = 0)
Divisible == phase # "class" => \A t \in T : D(lift, t) % P = 0
(* the defect of a lift, divided by P, is -1, 0 or 1, and 0 with a vanishing edge     *)
Defect == phase # "class" => \A t \in T : LET d == D(lift, t) IN
            IF P = 2 THEN d \in {-2, 0, 2} ELSE d \in {-P, 0, P} /\ (d # 0 => 0 \notin {lift[<<t[1], t[2]>>], lift[<<t[2], t[3]>>], lift[<<t[1], t[3]>>]})
Used == phase = "integrate" => /\ Closed(used)
                               /\ \A e \in E : (used[e] - class[e]) % P = 0
                               /\ Closed(lift) => used = lift
(* never both, and always one of the two: an error is raised exactly when there is no lift *)
NotBoth == phase = "lifted" => ~(Obstructed /\ (Closed(lift) \/ Candidates # {}))
Ends == <>(phase \in {"integrate", "error"})
=============================================================================
