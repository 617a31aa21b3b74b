------------------------------ MODULE MMDNModel ------------------------------
(* Targets of an MMD Newton run over its iterations.  Point i reaches its target   *)
(* wait[i] iterations after the target moved and rests one iteration later; the     *)
(* shift rule looks at every point on its own (matched) or moves everything         *)
(* (unmatched).  moved[j] counts the shifts of target j.                             *)
EXTENDS Num, TLC, Json
CONSTANTS MaxN, MaxWait, Iters
VARIABLES match, wait, lag, still, moved, it, due
vars == <<match, wait, lag, still, moved, it, due>>
Init ==
  /\ match \in BOOLEAN
  /\ \E n \in 1..MaxN : wait \in [1..n -> 0..MaxWait]
  /\ lag = wait /\ still = [i \in 1..Len(wait) |-> FALSE] /\ moved = [i \in 1..Len(wait) |-> 0] /\ it = 0 /\ due = {}
Step ==
  LET pts == 1..Len(wait)
      d == IF it = 0 THEN pts ELSE {i \in pts : lag[i] = 0 /\ still[i]}
      sh == IF match THEN d ELSE IF d = {} THEN {} ELSE pts
      lag1 == [i \in pts |-> IF i \in sh THEN wait[i] + 1 ELSE lag[i]] IN
  /\ it < Iters
  /\ due' = d
  /\ moved' = [i \in pts |-> moved[i] + (IF i \in sh THEN 1 ELSE 0)]
  /\ still' = [i \in pts |-> lag1[i] = 0]            \* the step of this iteration vanishes
  /\ lag' = [i \in pts |-> IF lag1[i] = 0 THEN 0 ELSE lag1[i] - 1]
  /\ it' = it + 1
  /\ UNCHANGED <<match, wait>>
Spec == Init /\ [][Step]_vars
FirstShiftsAll == it >= 1 => \A i \in 1..Len(wait) : moved[i] >= 1
(* an unreached target stays: with matching, shifts of a target are at least wait + 2 apart *)
Patience == match => \A i \in 1..Len(wait) : moved[i] <= 1 + it \div (wait[i] + 2)
Together == ~match => \A i, j \in 1..Len(wait) : moved[i] = moved[j]
NotWithoutReason == [][(\E i \in 1..Len(wait) : moved'[i] > moved[i]) => due' # {}]_vars
Emit == it = 0 => PrintT("@SCHED " \o ToJson([match |-> match, wait |-> wait]))
=============================================================================
