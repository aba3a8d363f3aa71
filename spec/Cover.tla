-------------------------------- MODULE Cover --------------------------------
(* Filtration scale, balls, weights: the rules for turning a class and perc     *)
(* (in eighths) into a cover of the data by balls around the landmarks.         *)
EXTENDS Simplices

Start(births, sr) == (IF sr THEN 2 ELSE 1) * MaxOf(Range(births))
End(deaths) == MinOf(Range(deaths))
Common(births, deaths) == MaxOf(Range(births)) < MinOf(Range(deaths))
Feasible(births, deaths, sr) == Common(births, deaths) /\ Start(births, sr) <= End(deaths)
(* eight times the scale *)
Scale8(births, deaths, sr, perc8) == (8 - perc8) * Start(births, sr) + perc8 * End(deaths)

(* the class is alive on the complex of edges strictly below the scale           *)
Alive(births, deaths, sr, perc8) == 8 * MaxOf(Range(births)) < Scale8(births, deaths, sr, perc8)

(* a data point is the sequence of its distances to the landmarks 0..n-1        *)
Inside(d, rad) == {k \in 0..(Len(d) - 1) : d[k + 1] < rad}
(* distances in the closed triangle inequality with the landmarks' own          *)
Admissible(d, D, S) == \A a, b \in S : a # b => At(D, a, b) <= d[a + 1] + d[b + 1]

(* bump functions as whole numbers, up to a common factor                       *)
Bump(name, table, d, rad) ==
    CASE name = "linear" -> rad - d
      [] name = "quadratic" -> (rad - d) * (rad - d)
      [] OTHER -> IF d < rad THEN Max2(table[d + 1], 1) ELSE 0
(* weights of a point: function on the balls containing it, in units of 10^-4    *)
Weights(name, table, d, S, rad) ==
    LET w == [k \in S |-> Bump(name, table, d[k + 1], rad)]
        total == Sum(S, LAMBDA k : w[k])
    IN [k \in S |-> Frac4(w[k], total)]
(* can the weights be told from the whole-number table?                          *)
Resolved(name, table, d, S, rad) ==
    \/ name \in {"linear", "quadratic"} \/ Cardinality(S) = 1
    \/ Sum(S, LAMBDA k : Bump(name, table, d[k + 1], rad)) >= 10000
=============================================================================
