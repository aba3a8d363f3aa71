------------------------------- MODULE T_Greedy -------------------------------
(* C01: recorded landmark selections, judged by the steps of Greedy.            *)
EXTENDS TraceKit, GreedyOps

RowsTrue(rows, T, perm, unit, rtol) ==
    /\ Len(rows) = Len(perm)
    /\ \A k \in DOMAIN perm : /\ Len(rows[k]) = Len(T[1])
                              /\ \A j \in DOMAIN rows[k] : Near(rows[k][j], unit * T[perm[k] + 1][j], rtol)

PermOK(perm, n) == \A k \in DOMAIN perm : perm[k] \in 0..(n - 1)

JudgeGreedy(e) ==
    LET n == Len(e.T)
        shape == Len(e.perm) = e.M /\ PermOK(e.perm, n)
        ds == TLCEval(IF shape /\ e.haslam THEN Distances(e.T, e.perm) ELSE <<>>)
    IN << <<"M landmarks among the points", shape>>,
          <<"starts at the first point, then farthest points", shape => IsGreedy(e.T, e.perm, e.tol)>>,
          <<"insertion radii are the farthest distances",
             (shape /\ e.haslam) => Len(e.lambdas) = e.M /\ \A k \in 2..e.M :
                  Near(e.lambdas[k], e.unit * ds[k - 1][e.perm[k] + 1], e.rtol)>>,
          <<"landmark to data distances are true", shape => RowsTrue(e.rows, e.T, e.perm, e.unit, e.rtol)>>,
          <<"landmark coordinates are those of the points", e.Yok>>,
          <<"input unchanged", e.unchanged>> >>

JudgeGeodesic(e) ==
    LET n == Len(e.Sq)
        amb == ~Unambiguous(e.Sq, e.k)
        W == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 0
                                ELSE IF Neighbour(e.Sq, i, j, e.k) THEN e.L[i][j] ELSE Inf]]
        G == ShortestPaths(W)
        marks == [k \in 1..e.M |-> e.perm[k]]
        shape == e.ok /\ Len(e.perm) = n /\ Range(e.perm) = 0..(n - 1)
    IN << <<"returns: " \o e.exc, e.ok>>,
          <<"a permutation of all points", e.ok => shape>>,
          <<"landmarks first, greedy for the graph distance", (shape /\ ~amb) =>
              (e.perm[1] = 0 /\ \A k \in 2..e.M : 
                  LET S == Prefix(e.perm, k - 1)
                      rest == (0..(n - 1)) \ S
                      far == MaxOf({DistTo(G, S, j) : j \in rest})
                  IN e.perm[k] \in rest /\ DistTo(G, S, e.perm[k]) >= far - 2 * n)>>,
          <<"distances are the graph's, columns labelled by the permutation", (shape /\ ~amb) =>
              /\ Len(e.rows) = e.M
              /\ \A k \in 1..e.M : /\ Len(e.rows[k]) = n
                                   /\ \A j \in 1..n : Near(e.rows[k][j], G[e.perm[k] + 1][e.perm[j] + 1], 2 * n)>>,
          <<"rest of the points not reordered arbitrarily: each once", shape>>,
          <<"input unchanged", e.unchanged>> >>

JudgeObject(e) ==
    IF ~e.ok THEN << <<"constructing returns: " \o e.exc, FALSE>> >>
    ELSE LET n == Len(e.T)
             shape == e.hasperm => PermOK(e.perm, n) /\ e.perm # <<>>
             distinctpts == Cardinality({e.T[i] : i \in 1..n})
         IN << <<"landmarks are data points", shape>>,
               <<"no data point is a landmark twice", e.hasperm => IsInjective(e.perm)>>,
               <<"as many landmarks as asked for, or as there are distinct points",
                  e.hasperm => IF distinctpts >= e.M THEN Len(e.perm) = e.M
                               ELSE Len(e.perm) \in distinctpts..e.M>>,
               <<"greedy, or all points", (e.hasperm /\ shape) => 
                    IsGreedy(e.T, e.perm, 0) \/ (Len(e.perm) = n /\ IsInjective(e.perm))>>,
               <<"landmark to data distances are true", (e.hasrows /\ shape) =>
                    /\ Len(e.rows) = Len(e.perm)
                    /\ \A k \in DOMAIN e.perm : /\ Len(e.rows[k]) = Len(e.D[1])
                          /\ \A j \in DOMAIN e.rows[k] : Near(e.rows[k][j], e.unit * e.D[e.perm[k] + 1][j],
                                                              e.rtol)>>,
               <<"input unchanged", e.unchanged>> >>

MyJudge(e) == CASE e.kind = "greedy" -> JudgeGreedy(e)
                [] e.kind = "geodesic" -> JudgeGeodesic(e)
                [] e.kind = "object" -> JudgeObject(e)
                [] OTHER -> << <<e.what, FALSE>> >>
=============================================================================
