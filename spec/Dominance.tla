----------------------------- MODULE Dominance -----------------------------
(* Pareto dominance (minimization) and dominance layers.                     *)
EXTENDS Num

WeakDom(p, q) == \A k \in 1..Len(p) : p[k] <= q[k]
Dom(p, q) == WeakDom(p, q) /\ p # q

(* declarative layer number: the longest chain of successive dominators *)
RECURSIVE Rank(_, _)
Rank(pts, i) ==
  LET D == {j \in 1..Len(pts) : Dom(pts[j], pts[i])}
  IN IF D = {} THEN 0 ELSE 1 + Max({Rank(pts, j) : j \in D})

(* operational: peel the non-dominated points off, layer by layer *)
FrontOf(pts, S) == {i \in S : ~\E j \in S : Dom(pts[j], pts[i])}
RECURSIVE PeelFrom(_, _)
PeelFrom(pts, S) ==
  IF S = {} THEN <<>>
  ELSE LET F == FrontOf(pts, S) IN <<F>> \o PeelFrom(pts, S \ F)
Layers(pts) == PeelFrom(pts, 1..Len(pts))
LayersOf(pts, S) == PeelFrom(pts, S)

(* points that no other listed point weakly dominates *)
StrictFront(pts) == SelectIdx(Len(pts), LAMBDA i : \A j \in 1..Len(pts) : j # i => ~WeakDom(pts[j], pts[i]))
=============================================================================
