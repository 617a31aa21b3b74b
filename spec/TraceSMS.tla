------------------------------ MODULE TraceSMS ------------------------------
(* op "survive": pts, cv, n, id, na (<<>> if not given), eps, C (sequence of kept)    *)
(* op "gen": the same for one generation of the algorithm; merged = parents, then      *)
(*    offspring; np parents, ranges from the parents                                     *)
(* op "tour": pts, cv, P (pairs), W (winners)                                             *)
(* op "dyn": pts (held), F (reported), hv, hvc (1/100), ref, vbox (0: exact, otherwise     *)
(*    volume of the sampling box)                                                           *)
EXTENDS SMS, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
Tr == Traces[t]
Ev == Tr.ev[l]
Once(s) == Len(s) = Cardinality(Range0(s))
Sampled(a, b, v) == (a - 100 * b) * (a - 100 * b) <= (10000 * b * (v - b)) \div 40 + 30
Fits(a, b, v) == IF v = 0 THEN Abs(a - 100 * b) <= 1 ELSE Abs(a - 100 * b) <= 30000 /\ Sampled(a, b, v)
Clauses(e) ==
  CASE e.op = "raised" -> [no_exception |-> FALSE]
    [] e.op = "survive" ->
        [members_of_the_candidates |-> \A i \in 1..Len(e.C) : e.C[i] \in 1..Len(e.pts),
         distinct_individuals |-> Once(e.C),
         least_contributors_removed |-> SurviveOk(e.pts, e.cv, e.n, e.id, e.na, e.eps, Range0(e.C))]
    [] e.op = "gen" ->
        [members_of_the_candidates |-> \A i \in 1..Len(e.C) : e.C[i] \in 1..Len(e.pts),
         distinct_individuals |-> Once(e.C),
         population_size |-> Len(e.C) = Mn(e.n, Len(e.pts)),
         least_contributors_removed |-> SurviveOk(e.pts, e.cv, e.n, Lowest(e.pts, 1..e.np), Highest(e.pts, 1..e.np), 10, Range0(e.C))]
    [] e.op = "tour" ->
        [smaller_violation_then_dominance |-> Len(e.W) = Len(e.P) /\ \A i \in 1..Len(e.P) :
            LET a == e.P[i][1] b == e.P[i][2] IN e.W[i] \in Winners(a, b, e.pts[a], e.pts[b], e.cv[a], e.cv[b])]
    [] e.op = "dyn" ->
        [reports_the_points_it_holds |-> e.F = e.pts,
         hypervolume |-> Fits(e.hv, HV(e.pts, e.ref), e.vbox),
         contributions |-> Len(e.hvc) = Len(e.pts) /\ \A i \in 1..Len(e.pts) : Fits(e.hvc[i], Exclusive(e.pts, 1..Len(e.pts), i, e.ref), e.vbox),
         shares_at_most_total |-> SumSeq(e.hvc) <= e.hv + 2 + Len(e.hvc)]
Init == t \in 1..Len(Traces) /\ l = 1
Next ==
  /\ l <= Len(Tr.ev) + 1
  /\ UNCHANGED t
  /\ IF l = Len(Tr.ev) + 1
     THEN PrintT("@DONE " \o ToJson([t |-> t])) /\ l' = l + 1
     ELSE LET b == Bad(Clauses(Ev)) IN
          IF b = {} THEN l' = l + 1
          ELSE /\ PrintT("@FAIL " \o ToJson([t |-> t, l |-> l, clauses |-> b]))
               /\ l' = Len(Tr.ev) + 100
=============================================================================
