-------------------------- MODULE DeltaPDerivModel --------------------------
(* A single point moving on a lattice while one reference point is assigned to *)
(* it: the powered distance, its gradient and its Hessian, and a quadratic     *)
(* objective map.  The invariants tie the derivative formulas to the distances *)
(* themselves through difference stencils that are exact for the polynomials   *)
(* involved.  Exported states are replayed into the implementation.            *)
EXTENDS DeltaPDeriv, Json
CONSTANTS Box, Curv
Curvatures == {-1, 0, 1, 2}
VARIABLES x, r, a
vars == <<x, r, a>>
(* f(x) = (x1 + a x2^2, 2 x2 - a x1 x2) : R^2 -> R^2 *)
F(z) == <<z[1] + a * z[2] * z[2], 2 * z[2] - a * z[1] * z[2]>>
JF(z) == <<<<1, 2 * a * z[2]>>, <<-a * z[2], 2 - a * z[1]>>>>
TF == <<<<<<0, 0>>, <<0, 2 * a>>>>, <<<<0, -a>>, <<-a, 0>>>>>>
Q(z) == Dist2(F(z), r)
Init == x = <<0, 0>> /\ r = <<1, 1>> /\ a \in Curv
Move == \E k \in 1..2, d \in {-1, 1} :
   /\ x' = [x EXCEPT ![k] = @ + d] /\ \A q \in 1..2 : Abs(x'[q]) <= Box
   /\ UNCHANGED <<r, a>>
MoveRef == \E k \in 1..2 : r' = [r EXCEPT ![k] = @ + 2] /\ r'[k] <= 5 /\ UNCHANGED <<x, a>>
Next == Move \/ MoveRef
Spec == Init /\ [][Next]_vars

E(k) == IF k = 1 THEN <<1, 0>> ELSE <<0, 1>>
At(u) == Q(VAdd(x, u))
Diff == VSub(F(x), r)
G == GradQ(JF(x), Diff)
H == HessQ(JF(x), TF, Diff)
(* five-point stencils: exact for polynomials of degree four *)
D1(k) == -At(VScale(2, E(k))) + 8 * At(E(k)) - 8 * At(VScale(-1, E(k))) + At(VScale(-2, E(k)))
D2(k) == -At(VScale(2, E(k))) + 16 * At(E(k)) - 30 * At(<<0, 0>>) + 16 * At(VScale(-1, E(k))) - At(VScale(-2, E(k)))
(* stencil for the mixed derivative, exact up to total degree 4 with parts <= 2+2 *)
M1(u) == At(VAdd(u, E(2))) - At(VSub(u, E(2)))
Mixed == M1(E(1)) - M1(VScale(-1, E(1)))
GradIsStencil == \A k \in 1..2 : D1(k) = 12 * G[k]
HessIsStencil == (\A k \in 1..2 : D2(k) = 12 * H[k][k]) /\ (H[1][2] = H[2][1])
(* d^3 q / dx1^3 and the like vanish for this map, so the mixed stencil is exact up to x2^3 x1 terms *)
MixedIsStencil == a = 0 => Mixed = 4 * H[1][2]
(* q^2 (p = 4): product rule *)
ProductRule == LET g == PGrad(Q(x), G, 8, 4) h == PHess(Q(x), G, H, 8, 4) IN
   \A k \in 1..2 : g[k] = 8 * Q(x) * G[k] /\ \A j \in 1..2 : h[k][j] = 8 * (G[k] * G[j] + Q(x) * H[k][j])
(* cube of a distance: (d^3)' = 3 d d' d^... = (3/2) d grad q *)
CubeRule == PowerOk(Q(x), 2) => LET g == PGrad(Q(x), G, 6, 4) IN \A k \in 1..2 : g[k] = 6 * ISqrt(Q(x)) * G[k]
Emit == Q(x) > 0 => PrintT("@VEC " \o ToJson([x |-> x, a |-> a, r |-> r, q |-> Q(x),
   g2 |-> PGrad(Q(x), G, 4, 1), h2 |-> PHess(Q(x), G, H, 4, 1),
   g4 |-> PGrad(Q(x), G, 8, 1), h4 |-> PHess(Q(x), G, H, 8, 1),
   sq |-> IF PowerOk(Q(x), 2) /\ Q(x) < 2000 /\ \A k \in 1..2 : Abs(G[k]) < 300 THEN
       [g1 |-> PGrad(Q(x), G, 2, 1000), h1 |-> PHess(Q(x), G, H, 2, 1000),
        g3 |-> PGrad(Q(x), G, 6, 1000), h3 |-> PHess(Q(x), G, H, 6, 1000)] ELSE [none |-> 0]]))
=============================================================================
