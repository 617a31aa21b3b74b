------------------------------- MODULE RefSet -------------------------------
(* Clustered reference sets: partition of the approximation points, matching  *)
(* of clusters to components, one-to-one targets, and shifts.  Coordinates    *)
(* are integers in units small enough that ISqrt of squared distances is      *)
(* accurate; tol absorbs that rounding.                                       *)
EXTENDS Num

D(u, v) == ISqrt(Dist2(u, v))
InjSeqs(n, m) == {f \in [1..n -> 1..m] : \A i, j \in 1..n : i # j => f[i] # f[j]}

(* component whose closest point is closest to y; ties are excluded by UniqueHome *)
DistTo(C, y) == Min({Dist2(C[j], y) : j \in 1..Len(C)})
Home(comps, y) == CHOOSE k \in 1..Len(comps) : \A q \in 1..Len(comps) : DistTo(comps[k], y) <= DistTo(comps[q], y)
UniqueHome(comps, Y) == \A i \in 1..Len(Y) : \A q \in 1..Len(comps) :
    q # Home(comps, Y[i]) => DistTo(comps[q], Y[i]) > DistTo(comps[Home(comps, Y[i])], Y[i])
(* clusters are lists of positions; components without points get none *)
PartitionOf(comps, Y) ==
  IF Len(comps) = 1 THEN << [i \in 1..Len(Y) |-> i] >>
  ELSE LET cl(k) == SelectIdx(Len(Y), LAMBDA i : Home(comps, Y[i]) = k)
       IN SelectSeq([k \in 1..Len(comps) |-> cl(k)], LAMBDA c : c # <<>>)
PartSize(part) == SumRange(Len(part), LAMBDA j : Len(part[j]))
(* the partition in force for a matching of Y *)
NextPart(comps, part, Y) == IF Len(comps) > 1 /\ PartSize(part) = Len(Y) THEN part ELSE PartitionOf(comps, Y)

Pick(Y, c) == [i \in 1..Len(c) |-> Y[c[i]]]

(* directed Hausdorff distance from a component to a cluster *)
Haus(C, P) == Max({Min({D(C[j], P[i]) : i \in 1..Len(P)}) : j \in 1..Len(C)})
MapCost(comps, cls, f) == SumRange(Len(cls), LAMBDA j : Haus(comps[f[j]], cls[j]))
OptMaps(comps, cls, tol) ==
  LET F == InjSeqs(Len(cls), Len(comps)) best == Min({MapCost(comps, cls, f) : f \in F})
  IN {f \in F : MapCost(comps, cls, f) <= best + tol}

AssignCost(Y, T) == SumRange(Len(Y), LAMBDA i : D(Y[i], T[i]))
BestAssign(Y, T) == Min({AssignCost(Y, [i \in 1..Len(T) |-> T[p[i]]]) : p \in Perms(Len(T))})
Optimal(Y, T, tol) == AssignCost(Y, T) <= BestAssign(Y, T) + tol

SamePoint(u, v, tol) == CloseSeq(u, v, tol)
Permuted(T, M, tol) == Len(T) = Len(M) /\ \E p \in Perms(Len(M)) : \A i \in 1..Len(T) : SamePoint(T[i], M[p[i]], tol)
DistinctFrom(T, C, tol) == \E f \in InjSeqs(Len(T), Len(C)) : \A i \in 1..Len(T) : SamePoint(T[i], C[f[i]], tol)

(* targets T of a cluster with points Y in component C whose kept targets are M (<<>> if none) *)
Kept(Y, M) == Len(M) = Len(Y)
LegalChoice(Y, T, C, M, tol) == IF Kept(Y, M) THEN Permuted(T, M, tol) ELSE DistinctFrom(T, C, tol)
LegalTargets(Y, T, C, M, tol) == LegalChoice(Y, T, C, M, tol) /\ Optimal(Y, T, tol * (Len(Y) + 1))

(* ---- default shift direction: unit normal of the hyperplane through the extreme points, *)
(*      entries not positive, scaled by 10^4.  Two and three objectives.                   *)
Extreme(C, k) == C[CHOOSE j \in 1..Len(C) : (\A q \in 1..Len(C) : C[j][k] <= C[q][k])
                                            /\ \A q \in 1..(j - 1) : C[q][k] > C[j][k]]
NormalOf(C) ==
  IF Len(C[1]) = 2 THEN LET m == VSub(Extreme(C, 2), Extreme(C, 1)) IN <<m[2], -m[1]>>
  ELSE LET a == VSub(Extreme(C, 2), Extreme(C, 1)) b == VSub(Extreme(C, 3), Extreme(C, 1))
       IN <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
OneSigned(n) == (\A k \in 1..Len(n) : n[k] >= 0) \/ (\A k \in 1..Len(n) : n[k] <= 0)
HasDirection(C) == LET n == NormalOf(C) IN OneSigned(n) /\ \E k \in 1..Len(n) : n[k] # 0
UnitDown(n) == LET len == ISqrt(Dot(n, n) * 10000) IN [k \in 1..Len(n) |-> -((Abs(n[k]) * 1000000) \div len)]
=============================================================================
