------------------------------- MODULE Quotients -------------------------------
(* Pictures of projective, lens and sphere quotients.                              *)
EXTENDS IntMatrix

Dot(x, y) == Sum(DOMAIN x, LAMBDA i : x[i] * y[i])
(* fixed point (10^-4) *)
Dot4(x, y) == Sum(DOMAIN x, LAMBDA i : (x[i] * y[i]) \div 100) \div 100

(* Gaussian pairs <<re1, im1, re2, im2>>: the Hermitian product z1 conj(w1) + z2 conj(w2) *)
HermRe(z, w) == z[1] * w[1] + z[2] * w[2] + z[3] * w[3] + z[4] * w[4]
HermIm(z, w) == z[2] * w[1] - z[1] * w[2] + z[4] * w[3] - z[3] * w[4]
Herm2(z, w) == Sq(HermRe(z, w)) + Sq(HermIm(z, w))
Norm2(z) == HermRe(z, z)
(* twice the Hopf map of a vector of squared length Norm2                            *)
HopfOf(z) == << 2 * (z[1] * z[3] + z[2] * z[4]), 2 * (z[2] * z[3] - z[1] * z[4]), z[1] * z[1] + z[2] * z[2] - z[3] * z[3] - z[4] * z[4] >>

(* lens space: phases a and b in M units per turn, q-th roots of unity                *)
Sector(a, q, M) == (q * (a % M)) \div M
Height(a, q, M) == (q * (a % M)) % M                       \* 0 .. M-1 from bottom to top
Around(a, b, q, M) == (q * b - Sector(a, q, M) * M) % (q * M)  \* q times the angle
LensPicture(a, b, q, M) == <<Height(a, q, M), Around(a, b, q, M)>>

(* inverse stereographic projection from a disk, up to the factor 1 + |s|^2, 10^-4    *)
Len2(s) == Dot4(s, s)
=============================================================================
