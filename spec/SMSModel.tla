------------------------------ MODULE SMSModel ------------------------------
(* Survival on every small candidate set: which sets a sequence of removals can     *)
(* leave, and a list of points under additions and deletions.                         *)
EXTENDS SMS, Json
CONSTANTS Side, MaxPts, MaxOps, Emitting
VARIABLES mode, pts, n, ops, old
vars == <<mode, pts, n, ops, old>>
Grid == [1..2 -> 0..Side]
Code(p) == p[1] * 10 + p[2]
Ref == <<Side + 1, Side + 1>>
All == 1..Len(pts)
Init ==
  /\ \/ /\ mode = "set" /\ n = 0
        /\ \E q \in 1..MaxPts : pts \in {s \in [1..q -> Grid] : \A i \in 1..q - 1 : Code(s[i]) <= Code(s[i + 1])}
     \/ mode = "list" /\ pts = <<>> /\ n = 0
  /\ ops = <<>> /\ old = <<>>
Add(p) == pts' = Append(pts, p) /\ ops' = Append(ops, <<1, p[1], p[2]>>)
Del(k) == pts' = [i \in 1..Len(pts) - 1 |-> IF i < k THEN pts[i] ELSE pts[i + 1]] /\ ops' = Append(ops, <<0, k, 0>>)
Next ==
  \/ /\ mode = "list" /\ Len(ops) < MaxOps
     /\ \/ \E p \in Grid : Add(p)
        \/ \E k \in All : Del(k)
     /\ old' = pts /\ UNCHANGED <<mode, n>>
  \/ /\ mode = "set" /\ mode' = "survive" /\ n' \in 0..Len(pts) /\ UNCHANGED <<pts, ops, old>>
Spec == Init /\ [][Next]_vars
Lo == Lowest(pts, All)
Hi == Highest(pts, All)
R2 == RefPt(Lo, Hi, 10)
L1 == LayersOf(pts, All)[1]
Surv == mode = "survive" /\ pts # <<>>
(* some selection is always allowed, all of them have the right size, and the front goes first *)
SomethingSurvives == Surv => \E C \in kSubset(n, All) : SurviveOk(pts, <<>>, n, <<>>, <<>>, 10, C)
FrontFirst == Surv => \A C \in kSubset(n, All) : SurviveOk(pts, <<>>, n, <<>>, <<>>, 10, C) =>
   Cardinality(C) = n /\ (L1 \subseteq C \/ C \subseteq L1)
(* one removal keeps as much hypervolume as any single removal can *)
GreedyIsOptimalForOne == Surv => \A C \in Thin(pts, L1, Cardinality(L1) - 1, R2) : \A i \in L1 :
   VolOf(pts, C, R2) >= VolOf(pts, L1 \ {i}, R2) \/ Cardinality(L1) = 0
LeavesIsThin == Surv => \A C \in kSubset(Mn(n, Cardinality(L1)), L1) : Leaves(pts, L1, C, R2) <=> C \in Thin(pts, L1, Mn(n, Cardinality(L1)), R2)
(* equal points are worth nothing exclusively *)
TwinsAreWorthless == \A i, j \in All : i # j /\ pts[i] = pts[j] => Exclusive(pts, All, i, Ref) = 0
SharesAtMostTotal == SumRange(Len(pts), LAMBDA i : Exclusive(pts, All, i, Ref)) <= HV(pts, Ref)
DeletionCostsShare == [][(mode = "list" /\ Len(pts') < Len(pts)) =>
   \E k \in All : HV(pts, Ref) - HV(pts', Ref) = Exclusive(pts, All, k, Ref)]_vars
AdditionNeverLoses == [][(mode = "list" /\ Len(pts') > Len(pts)) => HV(pts', Ref) >= HV(pts, Ref)]_vars
Emit == Emitting =>
  /\ (Surv /\ n > 0 => PrintT("@SET " \o ToJson([pts |-> pts, n |-> n])))
  /\ (mode = "list" /\ Len(ops) = MaxOps => PrintT("@OPS " \o ToJson([ops |-> ops])))
=============================================================================
