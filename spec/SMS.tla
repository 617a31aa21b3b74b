-------------------------------- MODULE SMS --------------------------------
(* Survival by dominance fronts and least exclusive hypervolume, on integer        *)
(* objective vectors; parent selection; a list of points with its hypervolume.      *)
EXTENDS Hypervolume

VolOf(pts, S, ref) == Vol({pts[i] : i \in S}, ref, Len(ref))
Exclusive(pts, S, i, ref) == VolOf(pts, S, ref) - VolOf(pts, S \ {i}, ref)
(* everything that removing a least contributor one at a time can leave *)
RECURSIVE Thin(_, _, _, _)
Thin(pts, S, n, ref) ==
  IF Cardinality(S) <= n THEN {S}
  ELSE LET c == [i \in S |-> Exclusive(pts, S, i, ref)] m == Min({c[i] : i \in S})
       IN UNION {Thin(pts, S \ {i}, n, ref) : i \in {j \in S : c[j] = m}}
(* whether C is one of them *)
RECURSIVE Leaves(_, _, _, _)
Leaves(pts, S, C, ref) ==
  \/ S = C
  \/ LET c == [i \in S |-> Exclusive(pts, S, i, ref)] m == Min({c[i] : i \in S})
     IN \E i \in S \ C : c[i] = m /\ Leaves(pts, S \ {i}, C, ref)
(* range of an objective; an objective without one is not scaled *)
Span(id, na) == IF id = na THEN 1 ELSE na - id
RefPt(id, na, eps) == [k \in 1..Len(id) |-> id[k] + (1 + eps) * Span(id[k], na[k])]
Lowest(pts, S) == [k \in 1..Len(pts[1]) |-> Min({pts[i][k] : i \in S})]
Highest(pts, S) == [k \in 1..Len(pts[1]) |-> Max({pts[i][k] : i \in S})]

(* what may be kept of S if n fit *)
Fill(L, n) ==      \* number of whole layers that fit
  Max({q \in 0..Len(L) : SumRange(q, LAMBDA r : Cardinality(L[r])) <= n})
Whole(L, q) == UNION {L[r] : r \in 1..q}
KeptOf(pts, S, n, id, na, eps, C) ==
  LET L == LayersOf(pts, S) q == Fill(L, n) W == Whole(L, q) IN
  /\ Cardinality(C) = Mn(n, Cardinality(S)) /\ C \subseteq S /\ W \subseteq C
  /\ q = Len(L) \/ (C \ W \subseteq L[q + 1] /\
       (Len(pts[1]) # 2 \/ Leaves(pts, L[q + 1], C \ W, RefPt(id, na, eps))))
(* cv = violations; <<>> without constraints *)
Feasible(pts, cv) == {i \in 1..Len(pts) : cv = <<>> \/ cv[i] = 0}
SurviveOk(pts, cv, n0, id, na, eps, C) ==
  LET n == Mn(n0, Len(pts)) Fe == Feasible(pts, cv) Un == (1..Len(pts)) \ Fe
      a == IF id # <<>> THEN id ELSE IF Fe = {} THEN Lowest(pts, 1..Len(pts)) ELSE Lowest(pts, Fe)
      b == IF na # <<>> THEN na ELSE IF Fe = {} THEN Highest(pts, 1..Len(pts)) ELSE Highest(pts, Fe) IN
  /\ Cardinality(C) = n
  /\ Fe = {} \/ KeptOf(pts, Fe, Mn(n, Cardinality(Fe)), a, b, eps, C \cap Fe)
  /\ \A i \in C \cap Un : \A j \in Un \ C : cv[i] <= cv[j]

(* binary tournament *)
Winners(a, b, p, q, cvp, cvq) ==
  IF cvp > 0 \/ cvq > 0 THEN IF cvp < cvq THEN {a} ELSE IF cvq < cvp THEN {b} ELSE {a, b}
  ELSE IF Dom(p, q) THEN {a} ELSE IF Dom(q, p) THEN {b} ELSE {a, b}
=============================================================================
