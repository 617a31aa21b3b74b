------------------------------ MODULE TraceKKT ------------------------------
(* Recorded KKT tests of whole states.                                          *)
(*  ev: op "kkt": n, pts = list of point records                                *)
(*        g (objective gradients), hv (equality values, 1e-5), h, gv, gg         *)
(*        (inequality values and gradients), fin = all values and derivatives    *)
(*        defined;  st, ft, at = tolerances (st in 1/1000, others in 1e-5);      *)
(*        res = one 0/1 per point                                               *)
(*  op "negative": refused = 0/1                                                *)
EXTENDS KKT, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<t, l>>
Tr == Traces[t]
Ev == Tr.ev[l]

Active(e, p) == LET I == SelectIdx(Len(p.gv), LAMBDA i : p.gv[i] >= -e.at) IN [q \in 1..Len(I) |-> p.gg[I[q]]]
Feasible(e, p) == (\A j \in 1..Len(p.hv) : Abs(p.hv[j]) <= e.ft) /\ (\A i \in 1..Len(p.gv) : p.gv[i] <= e.ft)
(* the linear program is solved in floating point: cases within 1/1000 of the tolerance are left open *)
SureYes(e, p) == p.fin /\ Feasible(e, p) /\ StationaryWithin(e.n, p.g, p.h, Active(e, p), e.st - 1, 1000)
MaybeYes(e, p) == p.fin /\ Feasible(e, p) /\ StationaryWithin(e.n, p.g, p.h, Active(e, p), e.st + 1, 1000)

Clauses(e) ==
  CASE e.op = "raised" -> [no_exception |-> FALSE]
    [] e.op = "negative" -> [negative_tolerance_refused |-> e.refused = 1]
    [] e.op = "kkt" ->
        [one_verdict_each |-> Len(e.res) = Len(e.pts),
         accepts_kkt_points |-> \A i \in 1..Len(e.pts) : SureYes(e, e.pts[i]) => e.res[i] = 1,
         rejects_others |-> \A i \in 1..Len(e.pts) : e.res[i] = 1 => MaybeYes(e, e.pts[i])]

Init == t \in 1..Len(Traces) /\ l = 1
Next ==
  /\ l <= Len(Tr.ev) + 1
  /\ UNCHANGED t
  /\ IF l = Len(Tr.ev) + 1
     THEN PrintT("@DONE " \o ToJson([t |-> t])) /\ l' = l + 1
     ELSE LET b == Bad(Clauses(Ev)) IN
          IF b = {} THEN l' = l + 1
          ELSE /\ PrintT("@FAIL " \o ToJson([t |-> t, l |-> l, clauses |-> b]))
               /\ l' = Len(Tr.ev) + 100
=============================================================================
