----------------------------- MODULE TraceFront -----------------------------
(* "front":   reported front: width n, F a selection of it                      *)
(* "samples": S objective vectors of feasible points of the box, F front points *)
(* "reach":   front points F and the feasible objective vectors closest to them *)
(* "complete": the feasible objective vectors least covered, and their best     *)
(*            matches on the front                                              *)
(* "set":     reported optimal points X with box, their images Y, and the front *)
(*            points closest to or most in conflict with the images             *)
(* "ctor", "fixed": constructor arguments and what became of them               *)
EXTENDS Front, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
Tr == Traces[t]
Ev == Tr.ev[l]
Clauses(e) ==
  CASE e.op = "raised" -> [no_exception |-> FALSE]
    [] e.op = "front" ->
        [number_of_objectives |-> e.n = e.n_obj /\ \A i \in 1..Len(e.F) : Len(e.F[i]) = e.n_obj,
         nonempty_and_finite |-> Len(e.F) >= 1 /\ \A i \in 1..Len(e.F) : Finite(e.F[i]),
         mutually_nondominated |-> MutuallyNonDominated(e.F)]
    [] e.op = "samples" -> [not_dominated_by_feasible_points |-> NoneDominated(e.S, e.F)]
    [] e.op = "reach" -> [approached_by_feasible_points |-> Covered(e.F, e.S, e.tol)]
    [] e.op = "complete" -> [no_part_of_the_front_missing |-> Covers(e.F, e.S, e.tol)]
    [] e.op = "set" ->
        [inside_the_box |-> \A i \in 1..Len(e.X) : InBox(e.X[i], e.lo, e.hi),
         feasible |-> e.nfeas = Len(e.X) \/ ~e.constrained,
         images_mutually_nondominated |-> MutuallyNonDominated(e.Y),
         images_not_dominated_by_front |-> NoneDominated(e.F, e.Y),
         images_do_not_dominate_front |-> NoneDominated(e.Y, e.F),
         images_on_the_front |-> (e.tol = 0 \/ Covered(e.Y, e.F, e.tol))]
    [] e.op = "ctor" ->
        [accepted_iff_valid |-> e.accepted = Accept(e.c),
         sizes_and_bounds_kept |-> (Accept(e.c) /\ e.accepted =>
            /\ e.n_var = e.c.nvar.v /\ e.n_obj = e.c.nobj.v
            /\ e.xl = Expand(e.c.lo, e.c.nvar.v) /\ e.xu = Expand(e.c.hi, e.c.nvar.v))]
    [] e.op = "badcount" -> [invalid_count_rejected |-> CountOk(e.c) \/ ~e.accepted]
    [] e.op = "fixed" ->
        [fixed_objectives_kept |-> e.name \in DOMAIN FixedObj => e.n_obj = FixedObj[e.name],
         fixed_variables_kept |-> e.name \in DOMAIN FixedVar => e.n_var = FixedVar[e.name],
         warned_iff_overridden |-> e.warned = e.overridden]
Init == t \in 1..Len(Traces) /\ l = 1
Next ==
  /\ l <= Len(Tr.ev) + 1
  /\ UNCHANGED t
  /\ IF l = Len(Tr.ev) + 1
     THEN /\ PrintT("@DONE " \o ToJson([t |-> t])) /\ l' = l + 1
     ELSE LET b == Bad(Clauses(Ev)) IN
          IF b = {} THEN l' = l + 1
          ELSE /\ PrintT("@FAIL " \o ToJson([t |-> t, l |-> l, clauses |-> b]))
               /\ l' = Len(Tr.ev) + 100
=============================================================================
