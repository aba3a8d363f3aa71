--------------------------------- MODULE Trig ---------------------------------
(* Cosine and sine in fixed point (10^-4) of angles given in Turn = 960000 units   *)
(* per turn: exact values every 15 degrees, the addition theorem in between.       *)
EXTENDS Num

Turn == 960000
Step24 == 40000
Cos24 == <<10000, 9659, 8660, 7071, 5000, 2588, 0, -2588, -5000, -7071, -8660, -9659,
           -10000, -9659, -8660, -7071, -5000, -2588, 0, 2588, 5000, 7071, 8660, 9659>>
CosAt(k) == Cos24[(k % 24) + 1]
SinAt(k) == Cos24[((k + 18) % 24) + 1]
Cos4(a) == LET x == a % Turn
               k == (x + Step24 \div 2) \div Step24
               d == x - k * Step24                            \* -20000 .. 20000
               r == (Abs(d) * 65450) \div 100000              \* the same in 10^-5 radians
               sq == (r * r) \div 200000                      \* half its square
               cu == ((2 * sq) * r) \div 600000               \* a sixth of its cube
               si == IF d < 0 THEN -(r - cu) ELSE r - cu
           IN (CosAt(k) * (100000 - sq) - SinAt(k) * si) \div 100000
Sin4(a) == Cos4(a - Turn \div 4)
=============================================================================
