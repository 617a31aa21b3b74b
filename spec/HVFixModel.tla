----------------------------- MODULE HVFixModel -----------------------------
(* The fixed-point hypervolume derivatives (by faces) equal the exact ones on  *)
(* every combinatorial type of point set in general position.                  *)
EXTENDS HVLocal, Fix
Up(p) == [k \in 1..Dim |-> 100 * p[k]]
UPts == [i \in 1..NPts |-> Up(Pts[i])]
UpFactor(d) == IF d = 2 THEN 100 ELSE 1
FixGradAgrees == LET g == HVGrad(Pts, Ref) IN \A i \in 1..NPts, k \in 1..Dim :
   FGrad(UPts, Up(Ref), i, k) = UpFactor(Dim) * g[(i - 1) * Dim + k]
FixHessAgrees == LET h == HVHess(Pts, Ref) IN \A i, j \in 1..NPts, k, l \in 1..Dim :
   FHess(UPts, Up(Ref), i, k, j, l) = (IF Dim = 2 THEN 1 ELSE 100) * h[(i - 1) * Dim + k][(j - 1) * Dim + l]
=============================================================================
