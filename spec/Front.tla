------------------------------- MODULE Front -------------------------------
(* Reported Pareto fronts and sets, and the validation of problem sizes.       *)
(* An objective value is a pair <<hi, lo>> = hi * Unit + lo, hi in 1e-6 and lo  *)
(* in 1e-12 of the front's range: differences below Eq (rounding) count as      *)
(* equal, an improvement counts from 1e-6 on, and domination is asserted only   *)
(* if some objective improves by Gap (1e-3).                                    *)
EXTENDS Num
Unit == 1000000
Eq == 10
Gap == 1000
Same(a, b) == Abs(a[1] - b[1]) <= 1 /\ Abs((a[1] - b[1]) * Unit + a[2] - b[2]) <= Eq
Less(a, b) == a[1] < b[1] - 1
Dominates(p, q) ==
  /\ \A k \in 1..Len(p) : Same(p[k], q[k]) \/ Less(p[k], q[k])
  /\ \E k \in 1..Len(p) : p[k][1] <= q[k][1] - Gap
Finite(p) == \A k \in 1..Len(p) : Abs(p[k][1]) < 1000000000
Near(p, q, tol) == \A k \in 1..Len(p) : Abs(p[k][1] - q[k][1]) <= tol

MutuallyNonDominated(F) == \A i, j \in 1..Len(F) : ~Dominates(F[i], F[j])
NoneDominated(S, F) == \A i \in 1..Len(S), j \in 1..Len(F) : ~Dominates(S[i], F[j])
(* every point of A has a point of B nearby *)
Covered(A, B, tol) == \A i \in 1..Len(A) : \E j \in 1..Len(B) : Near(A[i], B[j], tol)
(* every vector of S is no better than some point of F, up to the spacing of F *)
Covers(F, S, tol) == \A i \in 1..Len(S) : \E j \in 1..Len(F) : \A k \in 1..Len(F[j]) : F[j][k][1] <= S[i][k][1] + tol
InBox(x, lo, hi) == Len(x) = Len(lo) /\ \A i \in 1..Len(x) : lo[i] <= x[i] /\ x[i] <= hi[i]

(* ---- sizes and bounds ------------------------------------------------------ *)
(* a count: [kind, v] with kind "int", "npint", "bool", "float", "str", ...     *)
(* a bound: [form, v], form "scalar" (v a singleton) or "seq"                   *)
CountOk(c) == c.kind \in {"int", "npint"} /\ c.v >= 1
BoundOk(b, n) == b.form = "scalar" \/ Len(b.v) = n \/ Len(b.v) = 1
Expand(b, n) == IF Len(b.v) = n THEN b.v ELSE [i \in 1..n |-> b.v[1]]
Accept(c) ==
  /\ CountOk(c.nvar) /\ CountOk(c.nobj)
  /\ BoundOk(c.lo, c.nvar.v) /\ BoundOk(c.hi, c.nvar.v)
  /\ \A i \in 1..c.nvar.v : Expand(c.lo, c.nvar.v)[i] <= Expand(c.hi, c.nvar.v)[i]

(* sizes fixed by the benchmark definitions *)
FixedObj == [CF1 |-> 2, CF2 |-> 2, CF3 |-> 2, CF4 |-> 2, CF5 |-> 2, CF6 |-> 2, CF7 |-> 2, CF8 |-> 3, CF9 |-> 3, CF10 |-> 3,
             UF1 |-> 2, UF2 |-> 2, UF3 |-> 2, UF4 |-> 2, UF5 |-> 2, UF6 |-> 2, UF7 |-> 2, UF8 |-> 3, UF9 |-> 3, UF10 |-> 3,
             ZDT1 |-> 2, ZDT2 |-> 2, ZDT3 |-> 2, ZDT4 |-> 2, ZDT6 |-> 2,
             DENT |-> 2, DisConnected |-> 2, CONV3 |-> 3, CONV4 |-> 4, CONV4_2F |-> 4]
FixedVar == [DENT |-> 2, DisConnected |-> 2, CONV3 |-> 3, CONV4 |-> 4, CONV4_2F |-> 4]
=============================================================================
