------------------------------ MODULE Problem ------------------------------
(* The interface of a (constrained) multi-objective problem: values and first  *)
(* and second derivatives of the objectives, equality and inequality           *)
(* constraints; boundary constraints appended as lower- then upper-bound        *)
(* slacks; batches as rows.  Problems with known integer data are specified     *)
(* exactly (QuadMap); for every other problem the reported derivatives are      *)
(* compared with difference quotients of the reported values.                   *)
EXTENDS QuadMap

(* ---- boundary constraints ------------------------------------------------ *)
(* values: native ++ (lo - x) ++ (x - hi)                                      *)
Unit(n, i, s) == [j \in 1..n |-> IF j = i THEN s ELSE 0]
Zero2(n) == [i \in 1..n |-> [j \in 1..n |-> 0]]
SlackF(x, lo, hi) == VSub(lo, x) \o VSub(x, hi)
SlackJ(n) == [i \in 1..n |-> Unit(n, i, -1)] \o [i \in 1..n |-> Unit(n, i, 1)]
SlackT(n) == [i \in 1..2 * n |-> Zero2(n)]
IeqCount(nieq, n, bound) == nieq + (IF bound THEN 2 * n ELSE 0)
IeqF(q, x, lo, hi, bound) == QF(q, x) \o (IF bound THEN SlackF(x, lo, hi) ELSE <<>>)
IeqJ(q, x, bound) == QJ(q, x) \o (IF bound THEN SlackJ(Len(x)) ELSE <<>>)
IeqT(q, x, bound) == QT(q, x) \o (IF bound THEN SlackT(Len(x)) ELSE <<>>)
Rows(X, f(_)) == [i \in 1..Len(X) |-> f(X[i])]

(* ---- difference quotients -------------------------------------------------- *)
(* With f at distance h and 2h on both sides of x, in units of h:               *)
(*   dp = (f(x+h)-f(x))/h, dm = (f(x-h)-f(x))/h, dp2, dm2 at 2h.                *)
(* 12 E = 8 (dp - dm) - (dp2 - dm2) is exact for polynomials of degree 4.       *)
(* The margin covers a kink or a jump inside the stencil.                       *)
Est12(dp, dm, dp2, dm2) == 8 * (dp - dm) - (dp2 - dm2)
Margin12(dp, dm, dp2, dm2) == 7 * Abs(2 * (dp - dm) - (dp2 - dm2)) + 6 * Abs(dp + dm)
IsDerivative(j, dp, dm, dp2, dm2, tol) ==
  Abs(12 * j - Est12(dp, dm, dp2, dm2)) <= 12 * tol + Margin12(dp, dm, dp2, dm2)
(* the stencil shows a kink, a jump or a curvature it cannot resolve; least: smallest scale considered *)
Rough(dp, dm, dp2, dm2, least) == 10 * Margin12(dp, dm, dp2, dm2) > 12 * Mx(Mx(Abs(dp), Abs(dm)), least)

(* ---- deterministic integer data used by the model and by the replays -------- *)
Cf(s, k, a, b) == ((7 * k + 3 * (a + b) + 5 * a * b + 11 * s) % 5) - 2
Data(n, m, s) ==
  [A |-> [k \in 1..m |-> [a \in 1..n |-> [b \in 1..n |-> Cf(s, k, a, b)]]],
   b |-> [k \in 1..m |-> [a \in 1..n |-> Cf(s + 1, k, a, a)]],
   c |-> [k \in 1..m |-> Cf(s + 2, k, 1, 2)]]
=============================================================================
