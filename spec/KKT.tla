-------------------------------- MODULE KKT --------------------------------
(* Approximate first-order conditions decided exactly over the integers, by    *)
(* linear programming duality.  With objective gradients g_i, equality         *)
(* gradients h_j and active inequality gradients a_k, the least stationarity    *)
(* residual (infinity norm) equals                                              *)
(*    max { min_i v.g_i : |v|_1 <= 1, v.h_j = 0, v.a_k >= 0 }                   *)
(* and the maximum is attained at v = 0 or along a direction cut out by n-1 of  *)
(* the hyperplanes v_k = 0, v.(g_i - g_j) = 0, v.h_j = 0, v.a_k = 0.            *)
EXTENDS Num

Unit(n, k) == [q \in 1..n |-> IF q = k THEN 1 ELSE 0]
Cross(u, w) == <<u[2]*w[3] - u[3]*w[2], u[3]*w[1] - u[1]*w[3], u[1]*w[2] - u[2]*w[1]>>
Normals(n, g, h, a) ==
  {Unit(n, k) : k \in 1..n} \cup {VSub(g[i], g[j]) : i, j \in 1..Len(g)} \cup Range0(h) \cup Range0(a)
RawDirs(n, g, h, a) ==
  CASE n = 1 -> {<<1>>}
    [] n = 2 -> {<<w[2], -w[1]>> : w \in Normals(n, g, h, a)}
    [] n = 3 -> {Cross(u, w) : u, w \in Normals(n, g, h, a)}
NonZero(v) == \E k \in 1..Len(v) : v[k] # 0
Dirs(n, g, h, a) == LET R == {v \in RawDirs(n, g, h, a) : NonZero(v)} IN R \cup {VScale(-1, v) : v \in R}
Admissible(v, h, a) == (\A j \in 1..Len(h) : Dot(v, h[j]) = 0) /\ (\A k \in 1..Len(a) : Dot(v, a[k]) >= 0)
Norm1(v) == SumRange(Len(v), LAMBDA k : Abs(v[k]))
Gain(v, g) == MinSeq([i \in 1..Len(g) |-> Dot(v, g[i])])

(* least residual <= tol/U ?  (exact) *)
StationaryWithin(n, g, h, a, tol, U) ==
  tol >= 0 /\ \A v \in Dirs(n, g, h, a) : Admissible(v, h, a) => Gain(v, g) * U <= tol * Norm1(v)
=============================================================================
