-------------------------- MODULE TraceLineSearch --------------------------
(* Recorded searches over arbitrary merit functions.                            *)
(*  op "search": mx, ev = <<[s, phi]...>> in order (s in 2^-20, phi in 1e-8 of  *)
(*  the initial residual norm), res (2^-20), conv = residual at machine         *)
(*  precision.  op "newton": ratio of consecutive step sizes seen in a run.     *)
EXTENDS Num, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
Tr == Traces[t]
Ev == Tr.ev[l]
One == 100000000
Need(s) == (1000 * s) \div 1048576
Sure(e, k) == e.conv = 1 \/ (e.ev[k].phi # NaN /\ e.ev[k].phi <= One - Need(e.ev[k].s) - 3)
Maybe(e, k) == e.conv = 1 \/ (e.ev[k].phi # NaN /\ e.ev[k].phi <= One - Need(e.ev[k].s) + 3)
Clauses(e) ==
  CASE e.op = "raised" -> [no_exception |-> FALSE]
    [] e.op = "search" ->
        LET n == Len(e.ev) IN
        [starts_at_the_maximum |-> n >= 1 /\ e.ev[1].s = e.mx,
         halves_each_time |-> \A k \in 2..n : Abs(2 * e.ev[k].s - e.ev[k - 1].s) <= 2,
         at_most_six_trials |-> n <= 6,
         went_on_only_after_rejection |-> \A k \in 1..n - 1 : ~Sure(e, k),
         returned_value |-> n >= 1 /\ (IF n = 6 /\ ~Maybe(e, 6) THEN Abs(2 * e.res - e.ev[n].s) <= 2
                            ELSE \/ Maybe(e, n) /\ e.res = e.ev[n].s
                                 \/ n = 6 /\ ~Sure(e, n) /\ Abs(2 * e.res - e.ev[n].s) <= 2),
         input_untouched |-> e.same = 1]
Init == t \in 1..Len(Traces) /\ l = 1
Next ==
  /\ l <= Len(Tr.ev) + 1
  /\ UNCHANGED t
  /\ IF l = Len(Tr.ev) + 1
     THEN PrintT("@DONE " \o ToJson([t |-> t])) /\ l' = l + 1
     ELSE LET b == Bad(Clauses(Ev)) IN
          IF b = {} THEN l' = l + 1
          ELSE /\ PrintT("@FAIL " \o ToJson([t |-> t, l |-> l, clauses |-> b]))
               /\ l' = Len(Tr.ev) + 100
=============================================================================
