------------------------------ MODULE QuadMap ------------------------------
(* Integer quadratic maps R^n -> R^m and their derivatives: component k is     *)
(* x' A[k] x + b[k] x + c[k], with A[k] symmetric.                             *)
EXTENDS Num
QF(q, x) == [k \in 1..Len(q.b) |-> Dot(x, MatVec(q.A[k], x)) + Dot(q.b[k], x) + q.c[k]]
QJ(q, x) == [k \in 1..Len(q.b) |-> VAdd(VScale(2, MatVec(q.A[k], x)), q.b[k])]
QT(q, x) == [k \in 1..Len(q.b) |-> [a \in 1..Len(x) |-> VScale(2, q.A[k][a])]]
=============================================================================
