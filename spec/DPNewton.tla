------------------------------ MODULE DPNewton ------------------------------
(* One iteration of the Delta_p Newton method: both distances, the shift of    *)
(* reached targets, the per-point Newton system of the active distance, the    *)
(* box and the per-point line search.  Fixed point of module Fix.              *)
EXTENDS NewtonSys

FSqrt(v) == IF v <= 200000 THEN ISqrt(v * S) ELSE IF v <= 9000000 THEN 10 * ISqrt(v * 100) ELSE 100 * ISqrt(v)
FDist2(u, v) == LET d == VSub(u, v) IN FDot(d, d)
FDist(u, v) == LET d == VSub(u, v) c == [k \in 1..Len(d) |-> d[k] \div 64] IN
  IF MaxAbs(d) <= 20000 THEN ISqrt(Dot(d, d))         \* exact
  ELSE IF MaxAbs(d) <= 170000 THEN FSqrt(FDot(d, d)) ELSE 64 * FSqrt(FDot(c, c))

(* ---- matching of points to targets: p[i] = position of the target of point i.   *)
(*      lab/mlab: component of every point/target (targets never change component) *)
Assigns(lab, mlab) == {p \in Perms(Len(lab)) : \A i \in 1..Len(lab) : lab[i] = mlab[p[i]]}
Cost(Y, M, p) == SumRange(Len(Y), LAMBDA i : FDist(Y[i], M[p[i]]))
Near(Y, M, lab, mlab, tol) ==
  LET A == Assigns(lab, mlab) best == Min({Cost(Y, M, p) : p \in A}) IN {p \in A : Cost(Y, M, p) <= best + tol}

(* ---- distances ---- *)
GDv(Y, R) == FSqrt(SumRange(Len(Y), LAMBDA i : Min({FDist2(Y[i], R[j]) : j \in 1..Len(R)})) \div Len(Y))
IGDv(Y, M, p) == SumRange(Len(Y), LAMBDA i : FDist2(Y[i], M[p[i]])) \div Len(Y)
Nearest(y, M, tol) == LET b == Min({FDist2(y, M[j]) : j \in 1..Len(M)}) IN {j \in 1..Len(M) : FDist2(y, M[j]) <= b + tol}

(* ---- shift ---- *)
Moved(m, eta, c) == [k \in 1..Len(m) |-> m[k] + (c * eta[k]) \div 100]     \* c in hundredths
Shifted(M, mlab, eta, due, c) == [j \in 1..Len(M) |-> IF j \in due THEN Moved(M[j], eta[mlab[j]], c) ELSE M[j]]

(* ---- the system of one point towards a target: factor num/den of |y - t|^2 ---- *)
GradT(y, t, num, den) == [k \in 1..Len(y) |-> (2 * num * (y[k] - t[k])) \div den]
PResidual(pb, P, t, num, den) == Residual(PointData(pb, P), GradT(FixF(pb.F, P.x), t, num, den))
PSys(pb, P, t, num, den, D) ==
  LET pd == PointData(pb, P) u == FMatVec(pd.J, D.p)
  IN SysRows(pb, pd, GradT(FixF(pb.F, P.x), t, num, den), [k \in 1..Len(u) |-> (2 * num * u[k]) \div den], D, TRUE)
=============================================================================
