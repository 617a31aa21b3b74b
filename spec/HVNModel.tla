------------------------------ MODULE HVNModel ------------------------------
(* Populations on a lattice: points are added one at a time (possibly          *)
(* coinciding); then one iteration's population-level part is taken: reduce,    *)
(* split into layers.  Objectives, an equality and an inequality are those of   *)
(* one fixed problem, so that every mixture of feasible, infeasible, dominated  *)
(* and coinciding points occurs.  Each population is exported and run.          *)
(* The fixed-point hypervolume derivatives are compared with exact differences. *)
EXTENDS HVNewton, Hypervolume, Json
CONSTANTS Side, MaxN, Eq
VARIABLES pop, parts, phase
vars == <<pop, parts, phase>>
Cell == (0..Side) \X (0..Side)
(* linear objectives and constraints in lattice units *)
F(c) == <<2 * c[1] + c[2], 3 * c[2] - c[1] + Side>>
HFeas(c) == Eq => c[1] + c[2] = Side
GFeas(c) == c[1] - c[2] < 1
Feas(c) == HFeas(c) /\ GFeas(c)
Init == pop = <<>> /\ parts = {} /\ phase = "grow"
Grow == phase = "grow" /\ Len(pop) < MaxN /\ \E c \in Cell : pop' = Append(pop, c) /\ UNCHANGED <<parts, phase>>
Reduce == phase = "grow" /\ pop # <<>> /\ phase' = "reduced"
          /\ pop' = [i \in 1..Len(Keep(pop)) |-> pop[Keep(pop)[i]]] /\ UNCHANGED parts
Split == phase = "reduced" /\ phase' = "split" /\ UNCHANGED pop
         /\ parts' = Parts([i \in 1..Len(pop) |-> F(pop[i])], [i \in 1..Len(pop) |-> Feas(pop[i])])
Spec == Init /\ [][Grow \/ Reduce \/ Split]_vars

Distinct == phase # "grow" => \A i, j \in 1..Len(pop) : i # j => pop[i] # pop[j]
NothingLost == [][phase = "grow" /\ phase' = "reduced" => Range0(pop') = Range0(pop)]_vars
EachOnce == phase = "split" => /\ UNION parts = 1..Len(pop)
                               /\ \A A, B \in parts : A # B => A \cap B = {}
                               /\ \A A \in parts : A # {}
FeasibleInLaterLayers == phase = "split" /\ (\E i \in 1..Len(pop) : Feas(pop[i])) =>
   \A A \in parts : \A i \in A : ~Feas(pop[i]) => \E j \in A : Feas(pop[j]) /\ \A q \in 1..Len(pop) : Feas(pop[q]) => ~Dom(F(pop[q]), F(pop[j]))
LayerIsAntichain == phase = "split" => \A A \in parts : \A i, j \in A : Feas(pop[i]) /\ Feas(pop[j]) => ~Dom(F(pop[i]), F(pop[j]))
OneLayerIfNoneFeasible == phase = "split" /\ (\A i \in 1..Len(pop) : ~Feas(pop[i])) => parts = {1..Len(pop)}

(* derivatives: recursion by faces = exact differences of the volume *)
Ys == [i \in 1..Len(pop) |-> F(pop[i])]
R == <<4 * Side + 3, 5 * Side + 2>>
Separated == \A i, j \in 1..Len(pop), k \in 1..2 : i # j => Abs(Ys[i][k] - Ys[j][k]) >= 2
GradAgrees == phase = "split" /\ Separated =>
   LET g == HVGrad(Ys, R) IN \A i \in 1..Len(pop), k \in 1..2 : FGrad(Ys, R, i, k) = g[(i - 1) * 2 + k]
HessAgrees == phase = "split" /\ Separated =>
   LET h == HVHess(Ys, R) IN \A i, j \in 1..Len(pop), k, l \in 1..2 :
      FHess(Ys, R, i, k, j, l) = h[(i - 1) * 2 + k][(j - 1) * 2 + l]
Emit == phase = "grow" /\ Len(pop) > 0 => PrintT("@SCHED " \o ToJson([pop |-> pop]))
=============================================================================
