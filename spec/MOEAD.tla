------------------------------- MODULE MOEAD -------------------------------
(* Decomposition with a shrinking constraint tolerance.  Objective values,     *)
(* weights and violations are integers, so every comparison is exact.          *)
EXTENDS Num

(* ---- neighbourhoods: w[j] are the directions ---- *)
Near(w, k, j) == Cardinality({i \in 1..Len(w) : Dist2(w[k], w[i]) < Dist2(w[k], w[j])})
NotFarther(w, k, j) == Cardinality({i \in 1..Len(w) : Dist2(w[k], w[i]) <= Dist2(w[k], w[j])})
NeighbourhoodOk(w, k, T, N) ==
  /\ Len(N) = Mn(T, Len(w)) /\ Cardinality(Range0(N)) = Len(N)
  /\ \A j \in Range0(N) : j \in 1..Len(w) /\ Near(w, k, j) < T
  /\ \A j \in 1..Len(w) : NotFarther(w, k, j) <= T => j \in Range0(N)

(* ---- decomposed values ---- *)
Tche(f, w, id) == Max({Abs(f[i] - id[i]) * w[i] : i \in 1..Len(w)})
WSum(f, w) == Dot(f, w)
(* penalty 5 times the distance from the ray, 100 times the value times the length of w *)
PBI100(f, w, id) == LET d == VSub(f, id) a == Dot(d, w)
                    IN 100 * Abs(a) + 5 * ISqrt(10000 * (Dot(d, d) * Dot(w, w) - a * a))
(* 1: f is strictly better than g in direction w; 0: it is not; 2: too close to call *)
Lower(dec, f, g, w, id) ==
  CASE dec = "tche" -> IF Tche(f, w, id) < Tche(g, w, id) THEN 1 ELSE 0
    [] dec = "wsum" -> IF WSum(f, w) < WSum(g, w) THEN 1 ELSE 0
    [] dec = "pbi"  -> IF f = g THEN 0
                       ELSE LET a == PBI100(f, w, id) b == PBI100(g, w, id)
                            IN IF Abs(a - b) <= 12 THEN 2 ELSE IF a < b THEN 1 ELSE 0

(* ---- tolerance: <<num, den>>; mean initial violation, linear to zero at u10/10 of the budget ---- *)
(* third entry: 1 if binary floating point represents it exactly (so that "at the tolerance" is decidable) *)
Tolerance(cv0, p, G, u10) == <<Mx(0, G * u10 - 10 * p) * SumSeq(cv0), G * u10 * Len(cv0), IF p = 0 /\ SumSeq(cv0) % Len(cv0) = 0 THEN 1 ELSE 0>>
Excess(cv, tol) == Mx(0, cv * tol[2] - tol[1])
Unsure(cv, tol) == tol[1] > 0 /\ cv * tol[2] = tol[1] /\ tol[3] = 0

(* strictly better: f, g are objective vectors, cf, cg violations; cons: the problem has constraints *)
Better(dec, cons, f, cf, g, cg, w, id, tol) ==
  IF ~cons THEN Lower(dec, f, g, w, id)
  ELSE LET a == Excess(cf, tol) b == Excess(cg, tol) IN
       IF Unsure(cf, tol) \/ Unsure(cg, tol) THEN 2
       ELSE IF a = 0 /\ b = 0 THEN Lower(dec, f, g, w, id)
       ELSE IF a < b THEN 1 ELSE 0
=============================================================================
