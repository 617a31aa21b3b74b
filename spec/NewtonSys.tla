------------------------------ MODULE NewtonSys ------------------------------
(* Root-finding systems of the Newton methods in fixed point.  A problem is     *)
(*   [F, H, G] integer quadratic maps (H, G possibly without components);        *)
(* a point is [x, lam, act]: primal, multipliers (equalities first) and which    *)
(* constraints are active.  Constraint c of a point: value, gradient, curvature. *)
EXTENDS Fix
NEq(pb) == Len(pb.H.b)
NC(pb) == Len(pb.H.b) + Len(pb.G.b)
CVal(pb, x) == FixF(pb.H, x) \o FixF(pb.G, x)
CGrad(pb, x) == FixJ(pb.H, x) \o FixJ(pb.G, x)
CT(pb, c, a, b) == IF c <= NEq(pb) THEN FixT(pb.H, c, a, b) ELSE FixT(pb.G, c - NEq(pb), a, b)

(* everything the system of one point needs *)
PointData(pb, p) == [x |-> p.x, lam |-> p.lam, act |-> p.act, J |-> FixJ(pb.F, p.x), cv |-> CVal(pb, p.x), cg |-> CGrad(pb, p.x)]

(* g: gradient of the indicator with respect to the objectives of this point *)
RPrimal(pd, g) == LET jg == FVecMat(g, pd.J) IN
  [a \in 1..Len(pd.x) |-> jg[a] + SumRange(Len(pd.lam), LAMBDA c : IF pd.act[c] THEN FMul(pd.lam[c], pd.cg[c][a]) ELSE 0)]
RDual(pd) == [c \in 1..Len(pd.lam) |-> IF pd.act[c] THEN pd.cv[c] ELSE 0]
Residual(pd, g) == RPrimal(pd, g) \o RDual(pd)

(* rows of (Jacobian of the residual) applied to a displacement d = [p, l]:       *)
(* w = second derivative of the indicator in objective space applied to the       *)
(* displacement of the objectives; curv = multiplier curvature included           *)
SysRows(pb, pd, g, w, d, curv) ==
  LET jw == FVecMat(w, pd.J) n == Len(pd.x) IN
  [a \in 1..n |-> Sat(jw[a]
      + SumRange(n, LAMBDA b :
           LET k2 == SumRange(Len(g), LAMBDA k : g[k] * FixT(pb.F, k, a, b))
               c2 == IF curv THEN SumRange(Len(pd.lam), LAMBDA c : IF pd.act[c] THEN pd.lam[c] * CT(pb, c, a, b) ELSE 0) ELSE 0
           IN FMul(Sat(k2 + c2), d.p[b]))
      + SumRange(Len(pd.lam), LAMBDA c : IF pd.act[c] THEN FMul(pd.cg[c][a], d.l[c]) ELSE 0))]
  \o [c \in 1..Len(pd.lam) |-> IF pd.act[c] THEN FDot(pd.cg[c], d.p) ELSE 0]

(* ---- comparing residual norms ------------------------------------------------ *)
MaxAbs(v) == IF v = <<>> THEN 0 ELSE Max({Abs(v[i]) : i \in 1..Len(v)})
Flatten(vs) == FoldLeft(LAMBDA a, b : a \o b, <<>>, vs)
(* squared norm with entries divided by c, entries beyond the bound saturate *)
Norm2(v, c) == SumRange(Len(v), LAMBDA i : LET q == Mn(Abs(v[i]) \div c, 10000) IN q * q)
(* -1: certainly accepted, 1: certainly rejected, 0: within rounding of the threshold *)
Judge(trial, start) ==
  LET c == 1 + MaxAbs(start) \div 2000
      t == Norm2(trial, c) s == Norm2(start, c) IN
  IF MaxAbs(start) < 40 THEN 0
  ELSE IF MaxAbs(trial) \div c >= 10000 THEN 1
  ELSE IF t + t \div 25 + 2 * Len(start) < s - s \div 25 THEN -1
  ELSE IF t - t \div 25 > s + s \div 25 + 2 * Len(start) THEN 1 ELSE 0
Halvings == 6
==============================================================================
