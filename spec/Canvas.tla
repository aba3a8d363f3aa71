-------------------------------- MODULE Canvas --------------------------------
(* All short sequences of plot calls on several axes.                               *)
EXTENDS CanvasOps, Json

CONSTANTS MaxLen, Sizes

VARIABLES s, hist
vars == <<s, hist>>

Ops == {<<"current", a, 0>> : a \in Axes}
       \cup {<<n, a, k>> : n \in {"scatter", "grid"}, a \in {0} \cup Flat, k \in Sizes}
       \cup {<<n, a, 0>> : n \in {"proj", "halves"}, a \in {0} \cup Flat}
       \cup {<<"mesh", a, 0>> : a \in {0} \cup Space}
       \cup {<<"rp2", 0, k>> : k \in Sizes}
       \cup {<<n, a, k>> : n \in {"rp3", "rp3sphere", "level"}, a \in Space, k \in Sizes}

Init == s = Blank /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E op \in Ops : Possible(s, op) /\ s' = Apply(s, op) /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_vars

FlatKinds == {"box", "line", "arrow", "dots"}
WhereTheyBelong == /\ \A a \in Flat : s.drawn[a]["mesh"] = 0
                   /\ \A a \in Space : \A k \in {"box", "line", "arrow"} : s.drawn[a][k] = 0
(* nothing is lost, nothing is drawn twice, nothing is drawn elsewhere               *)
RECURSIVE Total(_, _, _)
Total(k, A, f) == IF A = {} THEN 0 ELSE LET a == CHOOSE a \in A : TRUE IN f[a][k] + Total(k, A \ {a}, f)
RECURSIVE Asked(_, _)
Asked(k, h) == IF h = <<>> THEN 0 ELSE Adds(Head(h))[k] + Asked(k, Tail(h))
AllDrawnOnce == \A k \in Kinds : Total(k, Axes, s.drawn) = Asked(k, hist)
OneAxesPerCall == [][\E a \in Axes : \A b \in Axes \ {a} : s'.drawn[b] = s.drawn[b] /\ (b \in s'.noticks <=> b \in s.noticks)]_vars
ReplaysTheSame == s = After(Blank, hist)
Emit == Len(hist) < MaxLen \/ PrintT("HISTORY " \o ToJson(hist))
=============================================================================
