---------------------------- MODULE TraceProblem ----------------------------
(* "counts": cfg counts reported by the problem object                           *)
(* "quad": a user-defined problem with integer data at the rows of X             *)
(* "der": difference quotients of reported values against the reported           *)
(*        derivative: D = rows of <<derivative, dp, dm, dp2, dm2, least>>;                      *)
(*        S: scaled differences of the Hessians and their transposes               *)
(* "agree": pairs of numbers that must agree, as scaled differences              *)
(* "slack": inequalities with and without boundary constraints                    *)
EXTENDS Problem, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
Tr == Traces[t]
Ev == Tr.ev[l]
Big == 1000000000
(* d = <<derivative, dp, dm, dp2, dm2, least>>; a row holds all entries of one output *)
Unclear(d) == (\E i \in 2..5 : Abs(d[i]) >= Big) \/ Rough(d[2], d[3], d[4], d[5], d[6])
EntryOk(d) == Abs(d[1]) < Big /\ IsDerivative(d[1], d[2], d[3], d[4], d[5], 20)
RowClear(r) == \A i \in 1..Len(r) : ~Unclear(r[i])
RowOk(r) == RowClear(r) => \A i \in 1..Len(r) : EntryOk(r[i])
QuadParts(e, q, f, j, h, bound) ==
  /\ f = Rows(e.X, LAMBDA x : IeqF(q, x, e.lo, e.hi, bound))
  /\ j = Rows(e.X, LAMBDA x : IeqJ(q, x, bound))
  /\ h = Rows(e.X, LAMBDA x : IeqT(q, x, bound))
Clauses(e) ==
  CASE e.op = "raised" -> [no_exception |-> FALSE]
    [] e.op = "counts" -> [dimensions_and_counts |-> /\ e.n_var = e.n /\ e.n_obj = e.m /\ e.n_eq = e.ne
                                                     /\ e.n_ieq = IeqCount(e.ni, e.n, e.bound)]
    [] e.op = "quad" ->
        [objective_values_and_derivatives |-> QuadParts(e, e.obj, e.F, e.FJ, e.FH, FALSE),
         equality_values_and_derivatives |-> QuadParts(e, e.eq, e.E, e.EJ, e.EH, FALSE),
         inequality_values_and_derivatives |-> QuadParts(e, e.ieq, e.G, e.GJ, e.GH, e.bound)]
    [] e.op = "der" ->
        [shape |-> e.shape = e.want,
         derivative_of_the_reported_values |-> \A i \in 1..Len(e.D) : RowOk(e.D[i]),
         symmetric |-> \A i \in 1..Len(e.S) : RowClear(e.D[i]) => \A j \in 1..Len(e.S[i]) : Abs(e.S[i][j]) <= 10]
    [] e.op = "agree" -> [agree |-> e.sameshape /\ \A i \in 1..Len(e.d) : Abs(e.d[i]) <= 10]
    [] e.op = "slack" ->
        [native_part_unchanged |-> \A i \in 1..Len(e.native) : Abs(e.native[i]) <= 10,
         slacks_appended |-> e.extra = SlackF(e.x, e.lo, e.hi),
         slack_jacobian |-> e.J = SlackJ(Len(e.x)),
         slack_hessian |-> e.H = SlackT(Len(e.x))]
Init == t \in 1..Len(Traces) /\ l = 1
Next ==
  /\ l <= Len(Tr.ev) + 1
  /\ UNCHANGED t
  /\ IF l = Len(Tr.ev) + 1
     THEN /\ PrintT("@COUNT " \o ToJson([derivative_rows |-> SumSeq([i \in 1..Len(Tr.ev) |-> IF Tr.ev[i].op = "der" THEN Len(Tr.ev[i].D) ELSE 0]),
                                           derivative_rows_smooth |-> SumSeq([i \in 1..Len(Tr.ev) |-> IF Tr.ev[i].op = "der" THEN Len(SelectSeq(Tr.ev[i].D, RowClear)) ELSE 0])]))
          /\ PrintT("@DONE " \o ToJson([t |-> t])) /\ l' = l + 1
     ELSE LET b == Bad(Clauses(Ev)) IN
          IF b = {} THEN l' = l + 1
          ELSE /\ PrintT("@FAIL " \o ToJson([t |-> t, l |-> l, clauses |-> b]))
               /\ l' = Len(Tr.ev) + 100
=============================================================================
