----------------------------- MODULE CircleMaps -----------------------------
(* Circle valued maps given by a landmark cochain theta (antisymmetric table)   *)
(* and values tau at the landmarks; U units per turn.                           *)
EXTENDS Cover

(* value at a point with weights phi, computed from the ball of landmark j       *)
Chart(tau, theta, phi, j, U) ==
    tau[j + 1] + Sum(DOMAIN phi, LAMBDA k : LET t == At(theta, j, k)
                                             IN IF t < 0 THEN -Mul4(phi[k], -t) ELSE Mul4(phi[k], t))
Flux(theta, E, j) == Sum({e \in E : j \in {e[1], e[2]}}, LAMBDA e : IF e[1] = j THEN At(theta, j, e[2]) ELSE At(theta, j, e[1]))
(* change along a sequence of values, each step the short way                    *)
Increment(vals, U) == Sum(1..(Len(vals) - 1), LAMBDA s : Wrap(vals[s + 1] - vals[s], U))
IncrementTable(n, paths, th, U) ==
    Table1(n, [i \in DOMAIN paths |-> <<paths[i][1], paths[i][2],
                 Increment([s \in 1..(Len(paths[i]) - 2) |-> th[paths[i][s + 2] + 1]], U)>>])
Round(x, U) == LET q == (x + U \div 2) \div U IN q
=============================================================================
