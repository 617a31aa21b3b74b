------------------------------ MODULE TraceHV ------------------------------
(* Recorded uses of the hypervolume calculators.  One trace is one life of a  *)
(* calculator with a fixed reference point; each event is one query.          *)
(*   ev.op = "value": pts, vals (every entry point's answer, times S), S,      *)
(*                    unmod (inputs bit-identical afterwards)                  *)
(*   ev.op = "improve": x, pts, vals                                          *)
(*   ev.op = "raised": the code raised where an answer is due                 *)
EXTENDS Hypervolume, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, best
vars == <<t, l, best>>

Tr == Traces[t]
Ev == Tr.ev[l]

Expected(e) == IF e.op = "improve" THEN HV(<<e.x>> \o e.pts, Tr.ref) - HV(e.pts, Tr.ref)
               ELSE HV(e.pts, Tr.ref)

Clauses(e) ==
  IF e.op = "raised" THEN [no_exception |-> FALSE]
  ELSE LET x == Expected(e) IN
    [ volume |-> \A i \in 1..Len(e.vals) : Close(e.vals[i], x * e.S, 1),
      inputs_unmodified |-> e.unmod ]

Init == t \in 1..Len(Traces) /\ l = 1 /\ best = 0
Next ==
  /\ l <= Len(Tr.ev) + 1
  /\ IF l = Len(Tr.ev) + 1
     THEN /\ PrintT("@DONE " \o ToJson([t |-> t])) /\ l' = l + 1 /\ UNCHANGED <<t, best>>
     ELSE LET b == Bad(Clauses(Ev)) IN
          IF b = {} THEN /\ l' = l + 1 /\ UNCHANGED t
                         /\ best' = IF Ev.op = "value" THEN Mx(best, HV(Ev.pts, Tr.ref)) ELSE best
          ELSE /\ PrintT("@FAIL " \o ToJson([t |-> t, l |-> l, clauses |-> b]))
               /\ l' = Len(Tr.ev) + 100 /\ UNCHANGED <<t, best>>
=============================================================================
