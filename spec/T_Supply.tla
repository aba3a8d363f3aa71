------------------------------- MODULE T_Supply -------------------------------
(* C02: results on the same data supplied in different forms.                     *)
EXTENDS TraceKit, Num

U == 100000
NearOrEq(x, y, tol) == x = y \/ Near(x, y, tol)
SameDgms(a, b, tol) ==
    /\ Len(a) = Len(b)
    /\ \A d \in DOMAIN a : LET x == a[d][1] y == b[d][1] IN
          /\ Len(x) = Len(y)
          /\ \A i \in DOMAIN x : NearOrEq(x[i][1], y[i][1], tol) /\ NearOrEq(x[i][2], y[i][2], tol)

(* one circle valued map against another, up to rotation and reflection             *)
SameMap(x, y, tol) ==
    /\ Len(x) = Len(y)
    /\ \A q \in DOMAIN x : (x[q] = Nan) = (y[q] = Nan)
    /\ LET num == {q \in DOMAIN x : x[q] # Nan}
       IN num # {} => LET b == MinOf(num)
                      IN \E s \in {1, -1} : \A q \in num : CircNear(x[q] - x[b], s * (y[q] - y[b]), U, tol)
(* several maps: up to their order                                                  *)
SameMaps(a, b, tol) ==
    /\ Len(a) = Len(b)
    /\ \E f \in [DOMAIN a -> DOMAIN b] : (\A i, j \in DOMAIN a : f[i] = f[j] => i = j) /\ \A i \in DOMAIN a : SameMap(a[i], b[f[i]], tol)
SameGram(a, b, tol) == /\ Len(a) = Len(b)
                       /\ \A i \in DOMAIN a : Len(a[i]) = Len(b[i]) /\ \A j \in DOMAIN a[i] : NearOrEq(a[i][j], b[i][j], tol)

JudgeSupply(e) ==
    LET base == e.forms[1]
    IN FlattenSeq([i \in DOMAIN e.forms |->
        LET f == e.forms[i]
            says(t) == f.name \o ": " \o t
        IN << <<says("same outcome"), f.ok = base.ok /\ (f.ok \/ f.exc = base.exc)>>,
              <<says("one coordinate for every data point"), f.ok => f.num = f.total>>,
              <<says("same diagrams"), SameDgms(f.dgms, base.dgms, e.tol)>>,
              <<says("same coordinates"), (f.ok /\ base.ok /\ f.num = f.total) => SameMaps(f.theta, base.theta, 120) /\ SameGram(f.gram, base.gram, 25)>> >>])

MyJudge(e) == CASE e.kind = "supply" -> JudgeSupply(e)
                [] OTHER -> << <<e.what, FALSE>> >>
=============================================================================
