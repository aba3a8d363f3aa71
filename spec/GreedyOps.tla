------------------------------ MODULE GreedyOps ------------------------------
(* Greedy farthest point sampling on the points 0..n-1 of a distance table T.   *)
EXTENDS Num

Dist(T, i, j) == T[i + 1][j + 1]
DistTo(T, S, j) == MinOf({Dist(T, i, j) : i \in S})
Radius(T, S) == MaxOf({DistTo(T, S, j) : j \in 0..(Len(T) - 1)})

(* one step: i may be chosen after the points S, up to tol                      *)
CanChoose(T, S, i, tol) == DistTo(T, S, i) >= Radius(T, S) - tol

Prefix(s, k) == {s[m] : m \in 1..k}
(* distances of all points to the first points of s, as they are chosen          *)
Distances(T, s) == FoldLeft(LAMBDA acc, k : Append(acc, TLCEval([j \in 1..Len(T) |-> Min2(acc[k - 1][j], T[s[k] + 1][j])])),
                            <<TLCEval([j \in 1..Len(T) |-> T[s[1] + 1][j]])>>, [k \in 1..(Len(s) - 1) |-> k + 1])
IsGreedy(T, s, tol) ==
    /\ s # <<>> /\ s[1] = 0
    /\ LET ds == TLCEval(Distances(T, s)) IN
       \A k \in 2..Len(s) : \A j \in 1..Len(T) : ds[k - 1][s[k] + 1] >= ds[k - 1][j] - tol

(* shortest paths over the edges of a table (Inf: no edge), undirected          *)
Plus(a, b) == IF a >= Inf \/ b >= Inf THEN Inf ELSE a + b
Undirected(W) == LET n == Len(W) IN [i \in 1..n |-> [j \in 1..n |-> Min2(W[i][j], W[j][i])]]
Relax(W, k) == LET n == Len(W) IN [i \in 1..n |-> [j \in 1..n |-> Min2(W[i][j], Plus(W[i][k], W[k][j]))]]
ShortestPaths(W) == FoldLeft(LAMBDA M, k : TLCEval(Relax(M, k)), TLCEval(Undirected(W)), [k \in 1..Len(W) |-> k])

(* graph of k nearest neighbours (a point is its own first neighbour)           *)
Closer(T, i, j) == Cardinality({m \in 1..Len(T) : T[i][m] < T[i][j]})
Neighbour(T, i, j, k) == Closer(T, i, j) < k
Unambiguous(T, k) == \A i \in 1..Len(T) : Cardinality({j \in 1..Len(T) : Neighbour(T, i, j, k)}) = k
NeighbourGraph(T, k) == LET n == Len(T) IN
    [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 0 ELSE IF Neighbour(T, i, j, k) THEN T[i][j] ELSE Inf]]
=============================================================================
