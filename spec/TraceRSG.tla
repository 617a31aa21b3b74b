------------------------------ MODULE TraceRSG ------------------------------
(* op "detect": pts, e2, mp, comps, num;  "fill": X, n, I;  "rsg": pts, e2, mp, comps, nf, Fy; same: argument untouched *)
EXTENDS RSG, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
Tr == Traces[t]
Ev == Tr.ev[l]
Tol == 12
Clauses(e) ==
  CASE e.op = "raised" -> [no_exception |-> FALSE]
    [] e.op = "detect" -> [components |-> DetectedOk(e.pts, e.e2, e.mp, e.comps), count |-> e.num = Len(e.comps), input_untouched |-> e.same]
    [] e.op = "fill" -> [evenly_on_the_polyline |-> FillOk(e.I, e.X, e.n, Tol), input_untouched |-> e.same]
    [] e.op = "rsg" -> [components |-> DetectedOk(e.pts, e.e2, e.mp, e.comps),
                        each_component_filled_by_its_share |-> RsgOk(e.Fy, e.comps, e.nf, Tol), input_untouched |-> e.same]
Init == t \in 1..Len(Traces) /\ l = 1
Next ==
  /\ l <= Len(Tr.ev) + 1
  /\ UNCHANGED t
  /\ IF l = Len(Tr.ev) + 1
     THEN PrintT("@DONE " \o ToJson([t |-> t])) /\ l' = l + 1
     ELSE LET b == Bad(Clauses(Ev)) IN
          IF b = {} THEN l' = l + 1
          ELSE /\ PrintT("@FAIL " \o ToJson([t |-> t, l |-> l, clauses |-> b]))
               /\ l' = Len(Tr.ev) + 100
=============================================================================
