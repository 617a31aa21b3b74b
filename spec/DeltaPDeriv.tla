----------------------------- MODULE DeltaPDeriv -----------------------------
(* Derivatives of powered distances.  One summand is q^(p2/4) for the squared  *)
(* distance q = |f(x) - r|^2 (p = p2/2); everything follows from                *)
(*   grad q = 2 J^T (y - r),   hess q = 2 (J^T J + sum_k (y_k - r_k) T_k).      *)
(* Exact for p2 = 4, 8; other exponents need q to be a perfect square (odd p)  *)
(* or a perfect fourth power (half-integer p), which the driver guarantees.    *)
EXTENDS DeltaP

GradQ(J, diff) == VScale(2, VecMat(diff, J))
HessQ(J, T, diff) ==
  LET n == Len(J[1]) JJ == MatMul(Transpose(J), J)
  IN [a \in 1..n |-> [b \in 1..n |-> 2 * (JJ[a][b] + SumRange(Len(diff), LAMBDA k : diff[k] * T[k][a][b]))]]

Div(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
(* round(num * q^(e/4)) for an integer e, q a suitable perfect power *)
Root4(q) == ISqrt(ISqrt(q))
PowerOk(q, e) == CASE e % 4 = 0 -> TRUE [] e % 2 = 0 -> ISqrt(q) * ISqrt(q) = q [] OTHER -> Pow(Root4(q), 4) = q
MulPow(num, q, e) ==
  LET base == IF e % 4 = 0 THEN q ELSE IF e % 2 = 0 THEN ISqrt(q) ELSE Root4(q)
      k == IF e % 4 = 0 THEN e \div 4 ELSE IF e % 2 = 0 THEN e \div 2 ELSE e
  IN IF k >= 0 THEN num * Pow(base, k) ELSE Div(num, Pow(base, -k))

(* derivatives of q^(p2/4), numerators over 16, scaled by S:                   *)
(*   grad = (p2/4) q^{p2/4 - 1} grad q                                         *)
(*   hess = (p2/4)(p2/4 - 1) q^{p2/4 - 2} grad q grad q^T + (p2/4) q^{p2/4-1} hess q *)
PGrad(q, g, p2, S) == [a \in 1..Len(g) |-> MulPow((S * p2 * g[a]) \div 4, q, p2 - 4)]
PHess(q, g, h, p2, S) ==
  [a \in 1..Len(g) |-> [b \in 1..Len(g) |->
     (IF p2 = 4 THEN 0 ELSE MulPow(Div(S * p2 * (p2 - 4) * g[a] * g[b], 16), q, p2 - 8))
     + MulPow(Div(S * p2 * h[a][b], 4), q, p2 - 4)]]
=============================================================================
