------------------------------- MODULE T_Persist -------------------------------
(* C03: the diagrams and cocycles reported by the coordinate objects.              *)
(* Distances, births and deaths arrive as ranks in the order of all distances.     *)
EXTENDS TraceKit, Persistence

(* cochains of any dimension as functions on sorted simplices                       *)
AsFun(rows) ==
    LET key(x) == Sorted(SubSeq(x, 1, Len(x) - 1))
    IN [k \in {key(rows[i]) : i \in DOMAIN rows} |->
            LET i == CHOOSE i \in DOMAIN rows : key(rows[i]) = k
            IN Sign(SubSeq(rows[i], 1, Len(rows[i]) - 1)) * rows[i][Len(rows[i])]]
Value(f, s) == IF s \in DOMAIN f THEN f[s] ELSE 0
Coboundary(f, s) == Sum(DOMAIN s, LAMBDA a : Alt(a) * Value(f, Face(s, a)))

(* simplices of dimension d + 1 having a face in the support: the others have coboundary 0 *)
Around(f, n) == UNION {{Sorted(Append(s, v)) : v \in Vertices(n) \ Range(s)} : s \in DOMAIN f}
On(f, z) == Sum(DOMAIN z, LAMBDA i : z[i][Len(z[i])] * Value(f, SubSeq(z[i], 1, Len(z[i]) - 1)))

(* x: the class; others: the classes reported in the same dimension                *)
Class(e, d, x, others) ==
    LET n == e.n
        rows == x.rows
        vert(i) == SubSeq(rows[i], 1, d + 1)
        form == x.ok /\ \A i \in DOMAIN rows : /\ Len(rows[i]) = d + 2 /\ \A t \in 1..(d + 1) : rows[i][t] \in Vertices(n)
                                               /\ Cardinality(Range(vert(i))) = d + 1
        keys == {Sorted(vert(i)) : i \in DOMAIN rows}
        f == TLCEval(AsFun(rows))
        times == x.birth # Nan /\ x.death # Nan /\ x.birth < x.death
    IN << <<"class is reported", x.ok>>,
          <<"same birth and death as in the diagram, among the distances, in this order", x.ok => x.same /\ times>>,
          <<"landmark numbers, each simplex once", form /\ Cardinality(keys) = Len(rows)>>,
          <<"values in the prime field", x.ok => \A i \in DOMAIN rows : rows[i][Len(rows[i])] \in 1..(e.p - 1)>>,
          <<"cocycle on everything that appears before the death", (form /\ times) =>
               \A s \in Around(f, n) : Diameter(e.D, s) < x.death => Coboundary(f, s) % e.p = 0>>,
          <<"not a coboundary from its birth on", (form /\ times /\ d <= 2) =>
               /\ x.z # <<>>
               /\ \A i \in DOMAIN x.z : LET s == SubSeq(x.z[i], 1, d + 1) IN s = Sorted(s) /\ Cardinality(Range(s)) = d + 1 /\ Range(s) \subseteq Vertices(n) /\ Diameter(e.D, s) <= x.birth
               /\ \A g \in FacesOf(x.z) : BoundaryAt(x.z, g) % e.p = 0
               /\ On(f, x.z) % e.p # 0>>,
          <<"independent of the other classes present at its birth", (form /\ times /\ d <= 2) =>
               \A i \in DOMAIN others : LET y == others[i] IN
                   (y.idx # x.idx /\ y.ok /\ y.wellformed /\ y.birth <= x.birth /\ x.birth < y.death) => On(TLCEval(AsFun(y.rows)), x.z) % e.p = 0>> >>

JudgePersist(e) ==
    << <<"all dimensions up to the requested one are there", e.ndims = e.maxdim + 1>>,
       <<"the number of landmarks asked for, all different", e.n = e.nl /\ e.distinct>> >>
    \o FlattenSeq([i \in DOMAIN e.dims |->
         << <<"sorted by persistence", \A k \in 1..(Len(e.dims[i].pers) - 1) : e.dims[i].pers[k] >= e.dims[i].pers[k + 1]>> >>
         \o FlattenSeq([k \in DOMAIN e.dims[i].classes |-> Class(e, e.dims[i].dim, e.dims[i].classes[k], e.dims[i].classes)])
         \o (IF e.dims[i].cols = <<>> THEN <<>>
            ELSE LET d == e.dims[i].dim
                     sound == IsReduced(e.D, e.n, d + 1, e.dims[i].cols, e.p)
                 IN << <<"the certificate of the barcode is one", sound>>,
                       <<"no interval missing, none too many, none displaced", sound => SameBag(Intervals(e.D, e.dims[i].cols), e.dims[i].bars)>> >>)])

MyJudge(e) == CASE e.kind = "persist" -> JudgePersist(e)
                [] OTHER -> << <<e.what, FALSE>> >>
=============================================================================
