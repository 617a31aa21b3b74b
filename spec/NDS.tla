-------------------------------- MODULE NDS --------------------------------
(* A growing list of objective vectors and its dominance layers.  Points are  *)
(* appended one at a time; the layers are maintained incrementally: a new     *)
(* point may push later layers back.  Every reachable list is exported.       *)
EXTENDS Dominance, Json

CONSTANTS Hi, Dim, MaxLen

VARIABLES pts, rank
vars == <<pts, rank>>
Points == [1..Dim -> 0..Hi]

Init == pts = <<>> /\ rank = <<>>

(* incremental maintenance: relax ranks until each point sits one above its dominators *)
RECURSIVE Settle(_, _)
Settle(P, r) ==
  LET nr == [i \in 1..Len(P) |-> Max({r[i]} \cup {r[j] + 1 : j \in {q \in 1..Len(P) : Dom(P[q], P[i])}})]
  IN IF nr = r THEN r ELSE Settle(P, nr)

Insert(p) == /\ Len(pts) < MaxLen
             /\ pts' = Append(pts, p)
             /\ rank' = Settle(pts', Append(rank, 0))
Next == \E p \in Points : Insert(p)
Spec == Init /\ [][Next]_vars

(* properties of the specification *)
RankIsChainLength == \A i \in 1..Len(pts) : rank[i] = Rank(pts, i)
RankIsPeeling == LET L == Layers(pts) IN \A i \in 1..Len(pts) : i \in L[rank[i] + 1]
NoEmptyLayer == \A i \in 1..Len(pts) : \A r \in 0..rank[i] : \E j \in 1..Len(pts) : rank[j] = r
LayersAreAntichains == \A i, j \in 1..Len(pts) : rank[i] = rank[j] => ~Dom(pts[i], pts[j])
DuplicatesTogether == \A i, j \in 1..Len(pts) : pts[i] = pts[j] => rank[i] = rank[j]
OnlyPushedBack == [][\A i \in 1..Len(pts) : rank'[i] >= rank[i]]_vars
FilterIsUniqueFront == Range0(StrictFront(pts)) =
   {i \in 1..Len(pts) : rank[i] = 0 /\ \A j \in 1..Len(pts) : j # i => pts[j] # pts[i]}

Emit == Len(pts) > 0 =>
   PrintT("@VEC " \o ToJson([p |-> pts, rank |-> rank, front |-> StrictFront(pts)]))
=============================================================================
