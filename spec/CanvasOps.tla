------------------------------- MODULE CanvasOps -------------------------------
(* Axes on figures, one of them current; what the plot helpers add to them.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Flat == {1, 2}
Space == {3, 4}
Axes == Flat \cup Space
Kinds == {"box", "line", "arrow", "dots", "mesh"}
Nothing == [k \in Kinds |-> 0]
Blank == [cur |-> 1, drawn |-> [a \in Axes |-> Nothing], noticks |-> {}, equal |-> {}]

(* an operation: name, axes given (0: none), number of patches or points            *)
Target(s, op) == IF op[1] \in {"rp2"} \/ op[2] = 0 THEN s.cur ELSE op[2]
Adds(op) ==
    CASE op[1] \in {"scatter", "grid"} -> [Nothing EXCEPT !["box"] = op[3]]
      [] op[1] = "proj" -> [Nothing EXCEPT !["line"] = 1, !["arrow"] = 2]
      [] op[1] = "halves" -> [Nothing EXCEPT !["line"] = 2, !["arrow"] = 8]
      [] op[1] = "mesh" -> [Nothing EXCEPT !["mesh"] = 1]
      [] op[1] = "rp2" -> [Nothing EXCEPT !["line"] = 1, !["arrow"] = 2, !["dots"] = 1]
      [] op[1] = "rp3" -> [Nothing EXCEPT !["dots"] = 1]
      [] op[1] = "rp3sphere" -> [Nothing EXCEPT !["dots"] = 1, !["mesh"] = 1]
      [] OTHER -> Nothing
Apply(s, op) ==
    LET a == Target(s, op)
        more == Adds(op)
    IN IF op[1] = "current" THEN [s EXCEPT !.cur = op[2]]
       ELSE [s EXCEPT !.drawn[a] = [k \in Kinds |-> @[k] + more[k]],
                      !.noticks = IF op[1] \in {"scatter", "grid", "rp2"} THEN @ \cup {a} ELSE @,
                      !.equal = IF op[1] \in {"proj", "halves", "rp2", "rp3sphere"} THEN @ \cup {a} ELSE @]
Possible(s, op) ==
    CASE op[1] = "current" -> op[2] \in Axes
      [] op[1] \in {"scatter", "grid", "proj", "halves", "rp2"} -> Target(s, op) \in Flat
      [] OTHER -> Target(s, op) \in Space
RECURSIVE After(_, _)
After(s, ops) == IF ops = <<>> THEN s ELSE After(Apply(s, Head(ops)), Tail(ops))

(* patches of the grid: row by row on the smallest square that holds n              *)
GridSide(n) == CHOOSE d \in 0..n : d * d >= n /\ \A c \in 0..(d - 1) : c * c < n
GridPlace(i, n) == <<(i - 1) % GridSide(n), (i - 1) \div GridSide(n)>>
=============================================================================
