----------------------------- MODULE QuotientModel -----------------------------
(* The pictures are well defined and faithful: exhaustively over small phases and   *)
(* Gaussian integers.  States are pairs of representatives; the steps move one of   *)
(* them within its orbit.                                                           *)
EXTENDS Quotients
CONSTANTS M, q, K
VARIABLES kind, x, y
vars == <<kind, x, y>>
Phases == 0..(M - 1)
Box == ((-K)..K) \X ((-K)..K) \X ((-K)..K) \X ((-K)..K)
Init == \/ kind = "lens" /\ x \in Phases \X Phases /\ y \in Phases \X Phases
        \/ kind = "hopf" /\ x \in Box /\ y \in Box /\ Norm2(x) > 0 /\ Norm2(y) > 0
Root == kind = "lens" /\ y' = <<(y[1] + M \div q) % M, (y[2] + M \div q) % M>> /\ UNCHANGED <<kind, x>>
Times == kind = "hopf" /\ y' = <<-y[2], y[1], -y[4], y[3]>> /\ UNCHANGED <<kind, x>>
Next == Root \/ Times
Spec == Init /\ [][Next]_vars

Pic(v) == LensPicture(v[1], v[2], q, M)
SameOrbit(v, w) == \E j \in 0..(q - 1) : w = <<(v[1] + j * (M \div q)) % M, (v[2] + j * (M \div q)) % M>>
LensFaithful == kind = "lens" => (Pic(x) = Pic(y) <=> SameOrbit(x, y))
(* the Hopf map: on the sphere; equal exactly when proportional                       *)
HopfSphere == kind = "hopf" => Dot(HopfOf(x), HopfOf(x)) = Sq(Norm2(x))
HopfFaithful == kind = "hopf" => Dot(HopfOf(x), HopfOf(y)) = 2 * Herm2(x, y) - Norm2(x) * Norm2(y)
HopfEqual == kind = "hopf" => ((\A i \in 1..3 : HopfOf(x)[i] * Norm2(y) = HopfOf(y)[i] * Norm2(x)) <=> Herm2(x, y) = Norm2(x) * Norm2(y))
Unmoved == [][kind = "lens" => Pic(y') = Pic(y)]_vars
UnmovedHopf == [][kind = "hopf" => HopfOf(y') = HopfOf(y)]_vars
=============================================================================
