------------------------------ MODULE HVLocal ------------------------------
(* Point sets in general position, moving by one crossing at a time: along    *)
(* each objective the points are ranked, and a step exchanges two neighbours  *)
(* in one objective.  Between crossings the hypervolume is a polynomial, so   *)
(* every combinatorial type of derivative is met.  Each state is exported     *)
(* with its exact gradient and Hessian and replayed into the implementation.  *)
EXTENDS Hypervolume, Json

CONSTANTS NPts, Dim, FixFirst, WithHess

VARIABLE rk                    \* rk[k][i] = rank of point i in objective k
vars == <<rk>>

Coord(k, r) == 2 * r + k * (((r - 1) * r) \div 2)
Pts == [i \in 1..NPts |-> [k \in 1..Dim |-> Coord(k, rk[k][i])]]
Ref == [k \in 1..Dim |-> Coord(k, NPts + 1) + 2 * (k % 2)]

Init == rk = [k \in 1..Dim |-> [i \in 1..NPts |-> IF k % 2 = 1 THEN i ELSE NPts + 1 - i]]

Cross(k, r) ==
  /\ r < NPts /\ (FixFirst => k # 1)
  /\ rk' = [rk EXCEPT ![k] = [i \in 1..NPts |->
        IF rk[k][i] = r THEN r + 1 ELSE IF rk[k][i] = r + 1 THEN r ELSE rk[k][i]]]
Next == \E k \in 1..Dim, r \in 1..NPts : Cross(k, r)
Spec == Init /\ [][Next]_vars

Dominated(i) == \E j \in 1..NPts : Dom(Pts[j], Pts[i])

(* ---- properties of the specification itself --------------------------- *)
InGeneralPosition == Generic(Pts, Ref, 2)
GradIsTwoSided == HVGrad(Pts, Ref) = HVGradBackward(Pts, Ref)
(* the hypervolume is homogeneous of degree Dim in (ref - y) *)
Gap(v) == Pts[Pt(v, Dim)][Ob(v, Dim)] - Ref[Ob(v, Dim)]
EulerGrad == LET g == HVGrad(Pts, Ref) IN
  SumRange(NPts * Dim, LAMBDA v : Gap(v) * g[v]) = Dim * HV(Pts, Ref)
EulerHess == WithHess => LET g == HVGrad(Pts, Ref) H == HVHess(Pts, Ref) IN
  \A u \in 1..(NPts * Dim) : SumRange(NPts * Dim, LAMBDA v : H[u][v] * Gap(v)) = (Dim - 1) * g[u]
DominatedIsFlat == LET g == HVGrad(Pts, Ref) IN
  \A v \in 1..(NPts * Dim) : Dominated(Pt(v, Dim)) => g[v] = 0
NoIncrease == \A v \in 1..(NPts * Dim) : HVGrad(Pts, Ref)[v] <= 0

Emit == PrintT("@VEC " \o ToJson([p |-> Pts, r |-> Ref, g |-> HVGrad(Pts, Ref),
                                  h |-> IF WithHess THEN HVHess(Pts, Ref) ELSE <<>>]))
=============================================================================
