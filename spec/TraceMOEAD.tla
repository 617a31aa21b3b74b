----------------------------- MODULE TraceMOEAD -----------------------------
(* A run: head [w, T, dec, cons, G, u10, F, cv] with the table of all individuals;   *)
(* op "start": ids of the initial population, N neighbourhoods as used                  *)
(* op "replace": k, off (id), p (progress), before, after                               *)
(* op "next": n0, n1 generation counters, m number of subproblems served, size, over     *)
(* The specification keeps its own population, ideal point and served subproblems.      *)
EXTENDS MOEAD, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, pop, ideal, cv0, served
Tr == Traces[t]
Ev == Tr.ev[l]
M == Len(Tr.w)
LowOf(S) == LET o == CHOOSE o \in S : TRUE IN [i \in 1..Len(o) |-> Min({f[i] : f \in S})]
IdAfter(e) == IF e.op = "start" THEN LowOf({Tr.F[i] : i \in Range0(e.ids)})
              ELSE IF e.op = "replace" THEN LowOf({ideal, Tr.F[e.off]}) ELSE ideal
Clauses(e) ==
  CASE e.op = "raised" -> [no_exception |-> FALSE]
    [] e.op = "start" ->
        [one_individual_per_direction |-> Len(e.ids) = M,
         nearest_directions_are_neighbours |-> Len(e.N) = M /\ \A k \in 1..M : NeighbourhoodOk(Tr.w, k, Tr.T, e.N[k])]
    [] e.op = "replace" ->
        LET id == IdAfter(e) tol == Tolerance(cv0, e.p, Tr.G, Tr.u10)
            N == Range0(e.N)
            B(j) == Better(Tr.dec, Tr.cons, Tr.F[e.off], Tr.cv[e.off], Tr.F[pop[j]], Tr.cv[pop[j]], Tr.w[j], id, tol)
        IN [population_unchanged_in_between |-> e.before = pop,
            population_size |-> Len(e.after) = M,
            replaces_exactly_the_neighbours_it_beats |-> Len(e.after) = M /\ \A j \in 1..M :
               \/ j \in N /\ B(j) \in {1, 2} /\ e.after[j] = e.off
               \/ (j \notin N \/ B(j) \in {0, 2}) /\ e.after[j] = pop[j]]
    [] e.op = "next" ->
        [one_generation |-> e.n1 = e.n0 + 1,
         every_subproblem_once |-> Len(served) = M /\ Range0(served) = 1..M,
         population_unchanged_in_between |-> e.ids = pop]
    [] e.op = "idle" -> [nothing_after_the_end |-> e.n1 = e.n0 /\ e.ids = pop /\ served = <<>>]
Init == t \in 1..Len(Traces) /\ l = 1 /\ pop = <<>> /\ ideal = <<>> /\ cv0 = <<>> /\ served = <<>>
Next ==
  /\ l <= Len(Tr.ev) + 1
  /\ UNCHANGED t
  /\ IF l = Len(Tr.ev) + 1
     THEN PrintT("@DONE " \o ToJson([t |-> t])) /\ l' = l + 1 /\ UNCHANGED <<pop, ideal, cv0, served>>
     ELSE LET b == Bad(Clauses(Ev)) IN
          IF b = {} THEN
             /\ l' = l + 1
             /\ ideal' = IdAfter(Ev)
             /\ pop' = CASE Ev.op = "start" -> Ev.ids [] Ev.op = "replace" -> Ev.after [] OTHER -> pop
             /\ cv0' = IF Ev.op = "start" THEN [i \in 1..Len(Ev.ids) |-> Tr.cv[Ev.ids[i]]] ELSE cv0
             /\ served' = CASE Ev.op = "replace" -> Append(served, Ev.k) [] OTHER -> <<>>
          ELSE /\ PrintT("@FAIL " \o ToJson([t |-> t, l |-> l, clauses |-> b]))
               /\ l' = Len(Tr.ev) + 100 /\ UNCHANGED <<pop, ideal, cv0, served>>
=============================================================================
