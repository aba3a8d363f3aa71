--------------------------- MODULE PersistenceModel ---------------------------
(* The reduction of the triangle columns of every small metric, one column        *)
(* operation at a time, in every order.  However it goes, it ends, and what is     *)
(* then read off is the barcode: the number of intervals alive from a to b is the   *)
(* rank of the restriction of classes modulo p from the scale b to the scale a.     *)
EXTENDS Persistence
CONSTANTS N, Dmax, P
VARIABLES D, z
vars == <<D, z>>

Tri == SetToSortSeq(Simplices(N, 2), LAMBDA s, t : Index(s) < Index(t))

(* symmetric tables without enumerating all tables *)
Symmetric == LET E == Simplices(N, 1)
             IN {[i \in 1..N |-> [j \in 1..N |-> IF i = j THEN 0 ELSE f[IF i < j THEN <<i - 1, j - 1>> ELSE <<j - 1, i - 1>>]]] : f \in [E -> 1..Dmax]}

Init == D \in Symmetric /\ z = [t \in Simplices(N, 2) |-> << t \o <<1>> >>]

Low(t) == LET S == Support(z[t], P) IN IF S = {} THEN <<>> ELSE Youngest(D, S)
InverseMod(a) == CHOOSE b \in 1..(P - 1) : (a * b) % P = 1
(* z[t] + c z[s], without the simplices whose weight vanishes *)
Coefficient(x, s) == LET R == {i \in DOMAIN x : Simplex(x[i]) = s} IN IF R = {} THEN 0 ELSE Weight(x[CHOOSE i \in R : TRUE])
Added(x, y, c) == LET all == SetToSortSeq({Simplex(r) : r \in Range(x) \cup Range(y)}, LAMBDA s, t : Index(s) < Index(t))
                      rows == [i \in DOMAIN all |-> all[i] \o << (Coefficient(x, all[i]) + c * Coefficient(y, all[i])) % P >>]
                  IN SelectSeq(rows, LAMBDA r : Weight(r) # 0)
Add(s, t) ==
    /\ Key(D, s) < Key(D, t) /\ Low(t) # <<>> /\ Low(s) = Low(t)
    /\ LET c == (-BoundaryAt(z[t], Low(t)) * InverseMod(BoundaryAt(z[s], Low(t)) % P)) % P
       IN z' = [z EXCEPT ![t] = Added(z[t], z[s], c)]
    /\ UNCHANGED D
Done == ~ \E s, t \in Simplices(N, 2) : Key(D, s) < Key(D, t) /\ Low(t) # <<>> /\ Low(s) = Low(t)
Next == \E s, t \in Simplices(N, 2) : Add(s, t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Columns == [i \in DOMAIN Tri |-> [top |-> Tri[i], low |-> Low(Tri[i]), chain |-> z[Tri[i]]]]

(* the definition: classes at scale b restricted to scale a *)
EdgesAt(a) == {e \in Simplices(N, 1) : Diameter(D, e) <= a}
Cochains(a) == [EdgesAt(a) -> 0..(P - 1)]
CocyclesAt(b) == {f \in Cochains(b) : \A t \in Simplices(N, 2) : Diameter(D, t) <= b => (f[<<t[1], t[2]>>] + f[<<t[2], t[3]>>] - f[<<t[1], t[3]>>]) % P = 0}
RestrictedTo(a, F) == {[e \in EdgesAt(a) |-> f[e]] : f \in F}
CoboundariesAt(a) == {[e \in EdgesAt(a) |-> (g[e[2]] - g[e[1]]) % P] : g \in [Vertices(N) -> 0..(P - 1)]}
RECURSIVE Power(_, _)
Power(x, k) == IF k = 0 THEN 1 ELSE x * Power(x, k - 1)

(* ---- properties ---------------------------------------------------------- *)
ColumnsStayColumns == \A i \in DOMAIN Tri : IsColumn(D, Columns[i], P)
EndsReduced == Done => IsReduced(D, N, 2, Columns, P)
ReadsBarcode == Done =>
    LET bars == Intervals(D, Columns)
    IN \A a \in 0..Dmax : \A b \in a..Dmax :
          Power(P, Alive(bars, a, b)) * Cardinality(CoboundariesAt(a)) = Cardinality(RestrictedTo(a, CocyclesAt(b)))
Ends == <>Done
=============================================================================
