------------------------------ MODULE ClassOrder ------------------------------
(* What the coordinate objects do with the classes they get: the landmarks are     *)
(* numbered in the order of their selection, the diagram is sorted by persistence,  *)
(* and the cocycles follow, rewritten in landmark numbers.                         *)
EXTENDS Num
CONSTANTS Data, Marks, MaxClasses, Times
VARIABLES perm, given, order, dgm, coc, phase
vars == <<perm, given, order, dgm, coc, phase>>

Injections(k, S) == {f \in [1..k -> S] : \A i, j \in 1..k : i # j => f[i] # f[j]}
Pers(b) == b[2] - b[1]
Bars == {b \in Times \X Times : b[1] < b[2]}
(* a cocycle: one edge between data points and a value                               *)
Init == /\ perm \in {f \in Injections(Marks, 0..(Data - 1)) : f[1] = 0}
        /\ \E k \in 1..MaxClasses : given \in [1..k -> {<<b, <<perm[1], perm[m], i>>>> : b \in Bars, m \in 2..Marks, i \in {1}}]
        /\ order = <<>> /\ dgm = <<>> /\ coc = <<>> /\ phase = "sort"
Left == DOMAIN given \ Range(order)
Pick(k) == /\ phase = "sort" /\ k \in Left
           /\ \A j \in Left : Pers(given[j][1]) <= Pers(given[k][1])
           /\ order' = Append(order, k)
           /\ dgm' = Append(dgm, given[k][1])
           /\ coc' = Append(coc, given[k][2])
           /\ phase' = IF Len(order') = Len(given) THEN "renumber" ELSE phase
           /\ UNCHANGED <<perm, given>>
Number(v) == CHOOSE m \in 0..(Marks - 1) : perm[m + 1] = v
Renumber == /\ phase = "renumber"
            /\ coc' = [k \in DOMAIN coc |-> <<Number(coc[k][1]), Number(coc[k][2]), coc[k][3]>>]
            /\ phase' = "done" /\ UNCHANGED <<perm, given, order, dgm>>
Next == Renumber \/ \E k \in DOMAIN given : Pick(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

SortedSoFar == \A k \in 1..(Len(dgm) - 1) : Pers(dgm[k]) >= Pers(dgm[k + 1])
OneToOne == \A i, j \in DOMAIN order : i # j => order[i] # order[j]
Aligned == phase = "done" => /\ Len(dgm) = Len(given)
                             /\ \A k \in DOMAIN dgm : LET g == given[order[k]] IN
                                   /\ dgm[k] = g[1]
                                   /\ <<perm[coc[k][1] + 1], perm[coc[k][2] + 1], coc[k][3]>> = g[2]
                                   /\ coc[k][1] \in 0..(Marks - 1) /\ coc[k][2] \in 0..(Marks - 1)
Ends == <>(phase = "done")
=============================================================================
