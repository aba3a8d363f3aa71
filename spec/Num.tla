-------------------------------- MODULE Num --------------------------------
(* Integer, rational and fixed point arithmetic used by all modules.          *)
(* Reals recorded from the code arrive as integers in a stated unit; Nan and  *)
(* Inf are the sentinels the recorder writes for not-a-number and infinity.   *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

Nan == -2000000000
Inf ==  2000000000

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
Near(x, y, tol) == x - tol <= y /\ y <= x + tol        \* also total for the sentinels

Sum(S, f(_)) == MapThenSumSet(f, S)                     \* sum of f over a finite set
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

(* residue in 0..m-1, and the representative of smallest absolute value *)
Mod(x, m) == x % m                                      \* TLC: result in 0..m-1 for m > 0
Centered(x, m) == LET r == x % m IN IF 2 * r > m THEN r - m ELSE r

(* circular distance and the short way round, in units of m per turn *)
Wrap(x, m) == Centered(x, m)
CircNear(x, y, m, tol) == IF {x, y} \cap {Nan, Inf, -Inf} # {} THEN FALSE ELSE Abs(Wrap(x - y, m)) <= tol

(* a * b \div 10^4 without overflow for 0 <= a <= 2*10^4, |b| <= 10^8 *)
Mul4(a, b) == LET s == IF b < 0 THEN -1 ELSE 1
                  h == Abs(b) \div 1000
                  lo == Abs(b) % 1000
              IN s * ((a * h) \div 10 + (a * lo) \div 10000)

(* a * 10^4 \div b for 0 <= a <= b *)
RECURSIVE Frac4(_, _)
Frac4(a, b) == IF b > 20000000 THEN Frac4(a \div 16, b \div 16) ELSE LET q1 == (a * 100) \div b
                   r1 == (a * 100) % b
               IN q1 * 100 + (r1 * 100) \div b

Binom[n \in 0..64, k \in 0..5] ==
    IF k = 0 THEN 1 ELSE IF n = 0 THEN 0 ELSE Binom[n - 1, k - 1] + Binom[n - 1, k]

IsIntSeq(s, len) == Len(s) = len /\ \A i \in 1..len : s[i] \in Int
Sq(x) == x * x
=============================================================================
