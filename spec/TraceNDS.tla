------------------------------ MODULE TraceNDS ------------------------------
(* Recorded calls of the non-dominated sort, dominance test and filter.       *)
(*  op "sort":  pts; ranks, a list of answers, each one layer number per       *)
(*              position (or -1 when a position is missing / listed twice)    *)
(*  op "filter": pts; idx (1-based), kept (the points returned)               *)
(*  op "dom":   a, b, res (0/1)                                               *)
EXTENDS Dominance, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<t, l>>
Tr == Traces[t]
Ev == Tr.ev[l]

(* layer of every point, computed by relaxation (longest dominator chain) *)
RECURSIVE Relax(_, _)
Relax(D, r) ==
  LET nr == [i \in 1..Len(r) |-> IF D[i] = {} THEN 0 ELSE 1 + Max({r[j] : j \in D[i]})]
  IN IF nr = r THEN r ELSE Relax(D, nr)
RanksOf(P) == Relax([i \in 1..Len(P) |-> {j \in 1..Len(P) : Dom(P[j], P[i])}], [i \in 1..Len(P) |-> 0])

Clauses(e) ==
  CASE e.op = "raised" -> [no_exception |-> FALSE]
    [] e.op = "sort" -> [layers |-> LET r == RanksOf(e.pts) IN \A q \in 1..Len(e.ranks) : e.ranks[q] = r,
                         inputs_unmodified |-> e.unmod]
    [] e.op = "filter" -> [filter_indices |-> e.idx = StrictFront(e.pts),
                           filter_points |-> e.kept = [i \in 1..Len(StrictFront(e.pts)) |-> e.pts[StrictFront(e.pts)[i]]],
                           inputs_unmodified |-> e.unmod]
    [] e.op = "dom" -> [dominance |-> (e.res = 1) = Dom(e.a, e.b)]

Init == t \in 1..Len(Traces) /\ l = 1
Next ==
  /\ l <= Len(Tr.ev) + 1
  /\ UNCHANGED t
  /\ IF l = Len(Tr.ev) + 1
     THEN PrintT("@DONE " \o ToJson([t |-> t])) /\ l' = l + 1
     ELSE LET b == Bad(Clauses(Ev)) IN
          IF b = {} THEN l' = l + 1
          ELSE /\ PrintT("@FAIL " \o ToJson([t |-> t, l |-> l, clauses |-> b]))
               /\ l' = Len(Tr.ev) + 100
=============================================================================
