-------------------------------- MODULE RSG --------------------------------
(* Reference set generation.  Points are integer pairs (one unit = 1/scale of   *)
(* the objective space); a neighbour is at squared distance at most e2, where   *)
(* the radius used lies strictly between two attainable distances.              *)
(* Lengths and generated points are in 1/1000 of a unit.                        *)
EXTENDS Num
K == 1000
(* ---- density-connected components (pts: sequence, i, j positions) ---- *)
Nb(pts, e2, i) == {j \in 1..Len(pts) : Dist2(pts[i], pts[j]) <= e2}
Core(pts, e2, mp) == {i \in 1..Len(pts) : Cardinality(Nb(pts, e2, i)) >= mp}
RECURSIVE Grow(_, _, _, _)
Grow(pts, e2, C, S) == LET T == S \cup {j \in C : \E i \in S : Dist2(pts[i], pts[j]) <= e2}
                       IN IF T = S THEN S ELSE Grow(pts, e2, C, T)
CoreComps(pts, e2, mp) == LET C == Core(pts, e2, mp) IN {Grow(pts, e2, C, {i}) : i \in C}
Border(pts, e2, mp) == LET C == Core(pts, e2, mp) IN {j \in 1..Len(pts) \ C : Nb(pts, e2, j) \cap C # {}}
Noise(pts, e2, mp) == LET C == Core(pts, e2, mp) IN {j \in 1..Len(pts) \ C : Nb(pts, e2, j) \cap C = {}}
Times(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
(* comps: what was detected, as sequences of points *)
DetectedOk(pts, e2, mp, comps) ==
  LET CC == CoreComps(pts, e2, mp) B == Border(pts, e2, mp) N == Noise(pts, e2, mp)
      In(i) == {c \in 1..Len(comps) : Times(comps[c], pts[i]) > 0}
  IN /\ Len(comps) = Cardinality(CC)
     /\ \A i \in 1..Len(pts) \ N : Cardinality(In(i)) = 1 /\ \A c \in In(i) : Times(comps[c], pts[i]) = Times(pts, pts[i])
     /\ \A i \in N : In(i) = {}
     /\ \A c \in 1..Len(comps) : \A k \in 1..Len(comps[c]) : Times(pts, comps[c][k]) > 0
     /\ \A S \in CC : \A i, j \in S : In(i) = In(j)
     /\ \A S, T \in CC : S # T => \A i \in S, j \in T : In(i) # In(j)
     /\ \A i \in B : \E j \in Core(pts, e2, mp) \cap Nb(pts, e2, i) : In(i) = In(j)

(* ---- polylines ---- *)
Dedup(q) == SelectSeq([i \in 1..Len(q) |-> IF i > 1 /\ q[i] = q[i - 1] THEN <<>> ELSE q[i]], LAMBDA x : x # <<>>)
Distinct1(X) == \A i, j \in 1..Len(X) : X[i][1] = X[j][1] => X[i] = X[j]
(* orders by the first objective; with ties between different points all of them *)
Polylines(X) ==
  IF Distinct1(X) THEN {Dedup(SortSeq(X, LAMBDA a, b : a[1] < b[1]))}
  ELSE {Dedup([i \in 1..Len(X) |-> X[p[i]]]) : p \in {q \in Perms(Len(X)) : \A i \in 1..Len(X) - 1 : X[q[i]][1] <= X[q[i + 1]][1]}}
SegLen(a, b) == LET d == Dist2(a, b) IN IF d <= 2000 THEN ISqrt(K * K * d) ELSE 100 * ISqrt(100 * d)
RECURSIVE Arc(_, _)
Arc(P, i) == IF i <= 1 THEN 0 ELSE Arc(P, i - 1) + SegLen(P[i - 1], P[i])
Length(P) == Arc(P, Len(P))
(* the point at arc length t (in 1/K) *)
At(P, t) == IF Len(P) = 1 THEN VScale(K, P[1])
            ELSE LET i == Max({q \in 1..Len(P) - 1 : q = 1 \/ Arc(P, q) <= t})
                     r == Mn(t - Arc(P, i), SegLen(P[i], P[i + 1]))
                 IN [c \in 1..2 |-> K * P[i][c] + ((P[i + 1][c] - P[i][c]) * r * K) \div SegLen(P[i], P[i + 1])]
Fill(P, n) == [j \in 1..n |-> IF n = 1 THEN VScale(K, P[1]) ELSE IF j = n THEN VScale(K, P[Len(P)]) ELSE At(P, (Length(P) * (j - 1)) \div (n - 1))]
FilledBy(I, P, n, tol) ==
  /\ Len(I) = n
  /\ IF n = 1 /\ Len(P) > 1 THEN CloseSeq(I[1], VScale(K, P[1]), tol) \/ CloseSeq(I[1], VScale(K, P[Len(P)]), tol)
     ELSE CloseMat(I, Fill(P, n), tol)
FillOk(I, X, n, tol) == \E P \in Polylines(X) : FilledBy(I, P, n, tol)

(* ---- shares of nf points in proportion to the lengths; all lengths zero: equal shares ---- *)
Shares(len, total, ncomp, nf) ==
  IF total = 0 THEN {s \in 0..nf : Abs(2 * (s * ncomp - nf)) <= ncomp}
  ELSE {s \in 0..nf : Abs(2 * (s * total - nf * len)) <= total + 4 * nf}
(* Fy lists the components one after another, in any order *)
RECURSIVE Filled(_, _, _, _, _, _)
Filled(Fy, C, total, ncomp, nf, tol) ==
  IF C = {} THEN Fy = <<>>
  ELSE \E X \in C : \E P \in Polylines(X[2]) : \E s \in Shares(X[3], total, ncomp, nf) :
         /\ s <= Len(Fy)
         /\ FilledBy(SubSeq(Fy, 1, s), P, s, tol)
         /\ Filled(SubSeq(Fy, s + 1, Len(Fy)), C \ {X}, total, ncomp, nf, tol)
(* a component's length, by the order used for it (ties between different points: any) *)
LengthOf(X) == Max({Length(P) : P \in Polylines(X)})
RsgOk(Fy, comps, nf, tol) ==
  LET L == [c \in 1..Len(comps) |-> LengthOf(comps[c])]
  IN Filled(Fy, {<<c, comps[c], L[c]>> : c \in 1..Len(comps)}, SumSeq(L), Len(comps), nf, tol)
=============================================================================
