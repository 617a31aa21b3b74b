------------------------------- MODULE DeltaP -------------------------------
(* Generational distances between finite point sets over Int, in fixed point. *)
(* Exponents are given doubled (p2 = 2p) so that p = 1/2 is covered too.      *)
EXTENDS Num

MinD2(y, R) == Min({Dist2(y, R[j]) : j \in 1..Len(R)})

(* S * sqrt(q), exact when q is a perfect square *)
SqrtS(q, S) == LET r == ISqrt(q) IN IF r * r = q THEN r * S ELSE ISqrt(q * S * S)

(* S * d^p for a squared distance q *)
DPow(q, p2, S) ==
  CASE p2 = 1 -> ISqrt(SqrtS(q, S) * S)
    [] p2 = 2 -> SqrtS(q, S)
    [] p2 = 4 -> q * S
    [] p2 = 6 -> q * SqrtS(q, S)
    [] p2 = 8 -> q * q * S

(* S * |Y| * GD^p  and  S * |R| * IGD^p *)
GDSum(Y, R, p2, S) == SumRange(Len(Y), LAMBDA i : DPow(MinD2(Y[i], R), p2, S))
IGDSum(Y, R, p2, S) == SumRange(Len(R), LAMBDA j : DPow(MinD2(R[j], Y), p2, S))

(* fixed-point error bounds of the two sums (p = 3 multiplies a rounded root) *)
ErrOf(q, p2) == IF p2 = 6 THEN q + 1 ELSE 2
GDErr(Y, R, p2) == 2 + SumRange(Len(Y), LAMBDA i : ErrOf(MinD2(Y[i], R), p2))
IGDErr(Y, R, p2) == GDErr(R, Y, p2)

MatchSum(Y, T) == SumRange(Len(Y), LAMBDA i : Dist2(Y[i], T[i]))

(* nearest positions *)
Nearest(y, R) == {j \in 1..Len(R) : Dist2(y, R[j]) = MinD2(y, R)}
UniqueNearest(Y, R) == \A i \in 1..Len(Y) : Cardinality(Nearest(Y[i], R)) = 1
TheNearest(y, R) == CHOOSE j \in Nearest(y, R) : TRUE
=============================================================================
