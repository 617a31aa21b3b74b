------------------------------ MODULE MMDModel ------------------------------
(* The derivative sums used to judge the code are the exact derivatives of the *)
(* kernel sums: for a kernel quadratic in |x-y|^2 every sum is a quartic       *)
(* polynomial of each coordinate, for which the five-point stencils are exact. *)
(* The discrepancy itself is symmetric, zero for equal sets and, for the       *)
(* Gaussian kernel, never negative.                                            *)
EXTENDS MMD
CONSTANTS NPts, NRef, Dim, Top, A, B
VARIABLES Y, R
vars == <<Y, R>>
Pt == [1..Dim -> 0..Top]
Poly == [kind |-> "poly", a |-> A, b |-> B]
Gau == [kind |-> "rbf", a |-> 1, b |-> 0]
Init == Y = <<>> /\ R = <<>>
AddY == Len(Y) < NPts /\ \E p \in Pt : Y' = Append(Y, p) /\ UNCHANGED R
AddR == Len(Y) = NPts /\ Len(R) < NRef /\ \E p \in Pt : R' = Append(R, p) /\ UNCHANGED Y
Spec == Init /\ [][AddY \/ AddR]_vars
Full == Len(Y) = NPts /\ Len(R) = NRef

Move(i, a, h) == [Y EXCEPT ![i][a] = @ + h]
Move2(i, a, h, j, b, g) == [Y EXCEPT ![i][a] = @ + h, ![j][b] = @ + g]
F(Z, w) == IF w = "yy" THEN SumK(Poly, Z, Z) ELSE IF w = "ry" THEN SumK(Poly, R, Z) ELSE SumMatched(Poly, Z, R)
D1(i, a, w) == 8 * (F(Move(i, a, 1), w) - F(Move(i, a, -1), w)) - (F(Move(i, a, 2), w) - F(Move(i, a, -2), w))      \* 12 f'
D2(i, a, w) == 16 * (F(Move(i, a, 1), w) + F(Move(i, a, -1), w)) - (F(Move(i, a, 2), w) + F(Move(i, a, -2), w)) - 30 * F(Y, w) \* 12 f''
Mix(i, a, j, b, h, w) == F(Move2(i, a, h, j, b, h), w) - F(Move2(i, a, h, j, b, -h), w) - F(Move2(i, a, -h, j, b, h), w) + F(Move2(i, a, -h, j, b, -h), w)
DMix(i, a, j, b, w) == 16 * Mix(i, a, j, b, 1, w) - Mix(i, a, j, b, 2, w)                                             \* 48 f_xy

GradientOfYY == Full => \A i \in 1..NPts, a \in 1..Dim : D1(i, a, "yy") = 12 * 2 * GOthers(Poly, Y, i)[a]
GradientOfRY == Full => \A i \in 1..NPts, a \in 1..Dim : D1(i, a, "ry") = 12 * GSet(Poly, Y[i], R)[a]
HessianOfYY == Full => \A i \in 1..NPts, a, b \in 1..Dim :
   LET h == 2 * (HOthers(Poly, Y, i, a, b, 1) + HOthers(Poly, Y, i, a, b, 2)) IN
   IF a = b THEN D2(i, a, "yy") = 12 * h ELSE DMix(i, a, i, b, "yy") = 48 * h
CrossOfYY == Full => \A i, j \in 1..NPts, a, b \in 1..Dim : i # j =>
   DMix(i, a, j, b, "yy") = 48 * 2 * (HCross(Poly, Y[i], Y[j], a, b, 1) + HCross(Poly, Y[i], Y[j], a, b, 2))
HessianOfRY == Full => \A i \in 1..NPts, a, b \in 1..Dim :
   LET h == HSet(Poly, Y[i], R, a, b, 1) + HSet(Poly, Y[i], R, a, b, 2) IN
   IF a = b THEN D2(i, a, "ry") = 12 * h ELSE DMix(i, a, i, b, "ry") = 48 * h
GradientOfMatched == Full /\ NPts = NRef => \A i \in 1..NPts, a \in 1..Dim : D1(i, a, "m") = 12 * DK(Poly, Y[i], R[i])[a]
Disc(X, Z) == Len(Z) * Len(Z) * SumK(Gau, X, X) + Len(X) * Len(X) * SumK(Gau, Z, Z) - 2 * Len(X) * Len(Z) * SumK(Gau, X, Z)
Nonnegative == Full => Disc(R, Y) >= 0 /\ Disc(R, Y) = Disc(Y, R) /\ Disc(Y, Y) = 0
==============================================================================
