----------------------------- MODULE Persistence -----------------------------
(* Persistent homology of the Rips filtration of a finite metric, by reduction   *)
(* of the boundary matrices modulo p.  Simplices enter in the order of their      *)
(* diameters (which are whole numbers here), then of their numbers.  A column is  *)
(* a chain of weighted simplices <<v0, .., vd, w>> and stands for its boundary.   *)
EXTENDS Simplices

Diameter(D, s) == MaxOf({At(D, s[i], s[j]) : i \in DOMAIN s, j \in DOMAIN s})
Key(D, s) == Diameter(D, s) * 10000 + Index(s)
Face(s, a) == SubSeq(s, 1, a - 1) \o SubSeq(s, a + 1, Len(s))
Alt(a) == IF a % 2 = 1 THEN 1 ELSE -1

Simplex(row) == SubSeq(row, 1, Len(row) - 1)
Weight(row) == row[Len(row)]
FacesOf(z) == UNION {{Face(Simplex(x), a) : a \in 1..(Len(x) - 1)} : x \in Range(z)}
BoundaryAt(z, g) == Sum(DOMAIN z, LAMBDA i :
    LET s == Simplex(z[i])
    IN Sum(DOMAIN s, LAMBDA a : IF Face(s, a) = g THEN Alt(a) * Weight(z[i]) ELSE 0))
(* the simplices on which the boundary of z does not vanish, and the youngest     *)
Support(z, p) == {g \in FacesOf(z) : BoundaryAt(z, g) % p # 0}
Youngest(D, S) == CHOOSE s \in S : \A t \in S : Key(D, t) <= Key(D, s)

(* column c = [top, low, chain]: a chain whose youngest simplex is top and whose   *)
(* boundary has youngest simplex low (or is zero, low = <<>>)                     *)
IsColumn(D, c, p) ==
    LET K == Key(D, c.top)
        S == Support(c.chain, p)
    IN /\ \E i \in DOMAIN c.chain : Simplex(c.chain[i]) = c.top /\ Weight(c.chain[i]) % p # 0
       /\ \A i, j \in DOMAIN c.chain : i # j => Simplex(c.chain[i]) # Simplex(c.chain[j])
       /\ \A i \in DOMAIN c.chain : Key(D, Simplex(c.chain[i])) <= K
       /\ IF c.low = <<>> THEN S = {} ELSE S # {} /\ Youngest(D, S) = c.low

(* a reduced matrix: one column for each simplex of dimension d, youngest simplices *)
(* of the boundaries all different                                                 *)
IsReduced(D, n, d, cols, p) ==
    LET lows == SelectSeq([i \in DOMAIN cols |-> cols[i].low], LAMBDA x : x # <<>>)
    IN /\ Len(cols) = Binom[n, d + 1] /\ {cols[i].top : i \in DOMAIN cols} = Simplices(n, d)
       /\ Cardinality(Range(lows)) = Len(lows)
       /\ \A i \in DOMAIN cols : IsColumn(D, cols[i], p)

(* the intervals of dimension d - 1 read off a reduced matrix of dimension d        *)
Intervals(D, cols) ==
    LET paired == SelectSeq(cols, LAMBDA c : c.low # <<>> /\ Diameter(D, c.low) < Diameter(D, c.top))
    IN [i \in DOMAIN paired |-> <<Diameter(D, paired[i].low), Diameter(D, paired[i].top)>>]
SameBag(x, y) == Len(x) = Len(y) /\ \A v \in Range(x) \cup Range(y) :
                     Cardinality({i \in DOMAIN x : x[i] = v}) = Cardinality({i \in DOMAIN y : y[i] = v})
Alive(bars, a, b) == Cardinality({i \in DOMAIN bars : bars[i][1] <= a /\ b < bars[i][2]})
=============================================================================
