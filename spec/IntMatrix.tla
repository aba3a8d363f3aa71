------------------------------ MODULE IntMatrix ------------------------------
(* Integer matrices as sequences of rows.                                       *)
EXTENDS Num

MatMul(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> Sum(1..Len(B), LAMBDA k : A[i][k] * B[k][j])]]
Transpose(A) == [j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]]
Identity(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
Drop(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Minor(A, i, j) == [k \in 1..(Len(A) - 1) |-> Drop(A[IF k < i THEN k ELSE k + 1], j)]
RECURSIVE Det(_)
Det(A) == IF A = <<>> THEN 1 ELSE IF Len(A) = 1 THEN A[1][1]
          ELSE Sum(1..Len(A), LAMBDA j : IF A[1][j] = 0 THEN 0
                     ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * A[1][j] * Det(Minor(A, 1, j)))
IsSquare(A, n) == Len(A) = n /\ \A i \in 1..n : Len(A[i]) = n
IsUnimodular(A) == Abs(Det(A)) = 1

(* the same modulo q < 2^15: total for entries of any size                        *)
RECURSIVE DetMod(_, _)
DetMod(A, q) == IF A = <<>> THEN 1 ELSE IF Len(A) = 1 THEN A[1][1] % q
          ELSE Sum(1..Len(A), LAMBDA j : LET x == A[1][j] % q IN IF x = 0 THEN 0
                     ELSE LET d == (x * DetMod(Minor(A, 1, j), q)) % q IN IF j % 2 = 1 THEN d ELSE (q - d) % q) % q
Q1 == 30011
Q2 == 29989
(* determinant 1 or -1, decided modulo Q1 * Q2                                    *)
UnimodularMod(A) == LET a == DetMod(A, Q1) b == DetMod(A, Q2)
                    IN (a = 1 /\ b = 1) \/ (a = Q1 - 1 /\ b = Q2 - 1)
MulMod(A, B, q) == [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |->
                      Sum(1..Len(B), LAMBDA k : ((A[i][k] % q) * (B[k][j] % q)) % q) % q]]
EqMod(X, Y, q) == \A i \in DOMAIN X : \A j \in DOMAIN X[i] : (X[i][j] - Y[i][j]) % q = 0
=============================================================================
