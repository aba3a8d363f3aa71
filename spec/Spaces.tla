-------------------------------- MODULE Spaces --------------------------------
(* The spaces the example generators sample, as sets of points given by equations. *)
EXTENDS Trig

RECURSIVE SqrtIn(_, _, _)
SqrtIn(n, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN SqrtIn(n, m, hi) ELSE SqrtIn(n, lo, m)
ISqrt(n) == IF n <= 0 THEN 0 ELSE SqrtIn(n, 0, 46340)

(* Coordinates in U = 1000 units.  rho is a claimed distance from the third axis.   *)
U == 1000
IsRho(x, rho) == rho >= 0 /\ Near(rho, ISqrt(x[1] * x[1] + x[2] * x[2]), 2)
InRange(x) == \A i \in DOMAIN x : Abs(x[i]) <= 17000
IsAzimuth(x, rho, a) == Near(x[1], (rho * Cos4(a)) \div 10000, 6) /\ Near(x[2], (rho * Sin4(a)) \div 10000, 6)

OnTorus(x, rho, R, r) == IsRho(x, rho) /\ Near(Sq(rho - R) + Sq(x[3]), r * r, 4 * (r + 2))
OnKlein(x, rho, R, r) ==
    LET s2 == Sq(x[3]) + Sq(x[4])                       \* r^2 sin^2 theta
        c == Sq(x[3]) - Sq(x[4])
        t == 2 * x[3] * x[4]
    IN /\ IsRho(x, rho)
       /\ Near(Sq(rho - R) + s2, r * r, 6 * (r + 2))
       /\ Near((c \div U) * rho, (s2 \div U) * x[1], 8 * rho + 8 * r)
       /\ Near((t \div U) * rho, (s2 \div U) * x[2], 8 * rho + 8 * r)

(* the tube of radius 1 around the trefoil of the given width; the curve itself pushed
   outward by 1 when there is no noise                                              *)
TrefoilCore(a, side, w) ==
    LET s == side * Sin4((3 * a) \div 2)
        c == side * Cos4((3 * a) \div 2)
    IN <<(w * (15000 + s \div 2)) \div 10000, (4 * c) \div 10>>
OnTrefoil(x, rho, a, w, noisy) ==
    /\ IsRho(x, rho) /\ IsAzimuth(x, rho, a)
    /\ \E side \in {-1, 1} :
          LET k == TrefoilCore(a, side, w)
          IN IF noisy THEN Near(Sq(rho - k[1]) + Sq(x[3] - k[2]), U * U, 30 * U)
                      ELSE Near(rho, k[1] + U, 12) /\ Near(x[3], k[2], 12)

(* how far a point of the plane is from a circle                                    *)
FromCircle(x, cx, radius) == Abs(ISqrt(Sq(x[1] - cx) + Sq(x[2])) - radius)
Quarter(a) == (4 * (a % Turn)) \div Turn

(* two points of the projective plane at angular distance t (Turn units)             *)
RpDistance(x, y, t) ==
    LET g == Abs((x[1] * y[1]) \div 10000 + (x[2] * y[2]) \div 10000 + (x[3] * y[3]) \div 10000)
    IN t >= 0 /\ t <= Turn \div 4 + 1 /\ Near(Cos4(t), g, 6)

(* The Moore space of q: the disk of radius 1 (coordinates in 10^-4), boundary points
   identified when they differ by a q-th of a turn.  Leaving x straight outward, and
   entering at one of the identified points.                                        *)
One4 == 10000
Dist4(x, y) == ISqrt(Sq(x[1] - y[1]) + Sq(x[2] - y[2]))
Norm4(x) == ISqrt(Sq(x[1]) + Sq(x[2]))
Boundary(a, k, q) == <<Cos4(a + (k * Turn) \div q), Sin4(a + (k * Turn) \div q)>>
Through(x, a, y, q) == (One4 - Norm4(x)) + MinOf({Dist4(Boundary(a, k, q), y) : k \in 0..(q - 1)})
MooreDistance(x, a, y, b, q) == MinOf({Dist4(x, y), Through(x, a, y, q), Through(y, b, x, q)})
=============================================================================
