-------------------------------- MODULE Lara --------------------------------
(* One iteration of the gradient-based optimizer in fixed point (module Fix):     *)
(* the direction of a point, the components a bound blocks, the common step size.   *)
EXTENDS DPNewton

FNorm(v) == FDist(v, [a \in 1..Len(v) |-> 0])
Steep(F, x) == \A k \in 1..Len(F.b) : FNorm(FixJ(F, x)[k]) >= 3000
(* minus the sum of the normalised gradients *)
Heading(F, x) == LET J == FixJ(F, x) u == [k \in 1..Len(J) |-> LET w == FNorm(J[k]) IN [a \in 1..Len(x) |-> FDiv(J[k][a], w)]]
                 IN [a \in 1..Len(x) |-> -SumRange(Len(J), LAMBDA k : u[k][a])]
HeadTol(F, x) == LET J == FixJ(F, x) IN 2 + SumRange(Len(J), LAMBDA k : 2 + (S * (2 + 2 * Len(x))) \div FNorm(J[k]))
(* at[a]: -1 at the lower bound, 1 at the upper, 0 inside *)
Kept(d, at) == [a \in 1..Len(d) |-> IF (at[a] = -1 /\ d[a] < 0) \/ (at[a] = 1 /\ d[a] > 0) THEN 0 ELSE d[a]]
RoomTo(x, xl, xu, a, d) == IF d < 0 THEN x[a] - xl[a] ELSE xu[a] - x[a]
(* the longest common step, as an interval: components known to e *)
Longest(X, D, e, xl, xu) ==
  LET M == {<<i, a>> \in (1..Len(X)) \X (1..Len(xl)) : D[i][a] # 0}
      lo == {FDiv(Mx(RoomTo(X[m[1]], xl, xu, m[2], D[m[1]][m[2]]) - 1, 0), Abs(D[m[1]][m[2]]) + e[m[1]]) : m \in M}
      hi == {FDiv(RoomTo(X[m[1]], xl, xu, m[2], D[m[1]][m[2]]) + 1, Abs(D[m[1]][m[2]]) - e[m[1]]) : m \in {q \in M : Abs(D[q[1]][q[2]]) > 2 * e[q[1]]}}
  IN [lo |-> Max({0, Min(lo \cup {S}) - 1}), hi |-> Min(hi \cup {S}) + 1]
(* a coordinate after the step *)
Reaches(x, d, e, s, y) == LET ps == {FMul(s.lo, d - e), FMul(s.lo, d + e), FMul(s.hi, d - e), FMul(s.hi, d + e)} IN
  y - x >= Min(ps) - 2 /\ y - x <= Max(ps) + 2
=============================================================================
