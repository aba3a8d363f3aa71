------------------------------ MODULE ScaleModel ------------------------------
(* A request grows class by class and its perc moves; the scale it leads to.        *)
EXTENDS Cover
CONSTANTS Top, MaxClasses, Dists
VARIABLES births, deaths, perc8, sr
vars == <<births, deaths, perc8, sr>>
Init == /\ births \in [1..1 -> 0..Top] /\ deaths \in [1..1 -> 1..Top]
        /\ births[1] < deaths[1] /\ perc8 = 0 /\ sr \in BOOLEAN
AddClass == \E b, d \in 0..Top : b < d /\ Len(births) < MaxClasses
              /\ births' = Append(births, b) /\ deaths' = Append(deaths, d) /\ UNCHANGED <<perc8, sr>>
Widen == perc8 < 8 /\ perc8' = perc8 + 1 /\ UNCHANGED <<births, deaths, sr>>
Next == AddClass \/ Widen
Spec == Init /\ [][Next]_vars

Ok == Feasible(births, deaths, sr)
S8 == Scale8(births, deaths, sr, perc8)
Between == Ok => 8 * Start(births, sr) <= S8 /\ S8 <= 8 * End(deaths)
Ends == Ok => (perc8 = 0 => S8 = 8 * Start(births, sr)) /\ (perc8 = 8 => S8 = 8 * End(deaths))
(* in the standard range the balls reach as far as the birth of every class          *)
Reach == (Ok /\ sr) => \A k \in DOMAIN births : S8 >= 16 * births[k]
(* every class has been born and none has died before the scale                     *)
Living == Ok => \A k \in DOMAIN births : 8 * births[k] <= S8 /\ S8 <= 8 * deaths[k]
BornBefore == (Ok /\ (perc8 > 0 /\ Start(births, sr) < End(deaths)) ) => Alive(births, deaths, sr, perc8)
(* more classes never make a request feasible; a larger perc never uncovers a point    *)
MoreClasses == [][births' # births => (Feasible(births', deaths', sr') => Ok)]_vars
Nested == [][(perc8' # perc8 /\ Ok) => \A d \in [1..2 -> Dists] :
               \A k \in 0..1 : 16 * d[k + 1] < S8 => 16 * d[k + 1] < S8']_vars
=============================================================================
