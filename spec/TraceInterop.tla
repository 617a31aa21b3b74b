---------------------------- MODULE TraceInterop ----------------------------
(* "factory": one call of a history, with what was observed afterwards;          *)
(* "counts", "quad", "view", "agree", "refused": conversions                     *)
EXTENDS Interop, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, s
Tr == Traces[t]
Ev == Tr.ev[l]
Start == [tb |-> "autograd.numpy", multi |-> Absent, many |-> Absent]
QuadParts(e, q, f, j, h, bound) ==
  /\ f = Rows(e.X, LAMBDA x : IeqF(q, x, e.lo, e.hi, bound))
  /\ j = Rows(e.X, LAMBDA x : IeqJ(q, x, bound))
  /\ h = Rows(e.X, LAMBDA x : IeqT(q, x, bound))
Vals(e, q) == Rows(e.X, LAMBDA x : QF(q, x))
Clauses(e) ==
  CASE e.op = "raised" -> [no_exception |-> FALSE]
    [] e.op = "factory" ->
        LET x == [a |-> e.a, f |-> e.f, b |-> e.b]  n == After(s, x) IN
        [outcome |-> e.ok = Succeeds(s, x),
         backend_restored |-> e.tb = n.tb /\ e.toolbox = n.tb,
         problem_modules |-> e.multi = n.multi /\ e.many = n.many,
         loaded_modules_untouched |-> e.same]
    [] e.op = "counts" -> [dimensions_and_counts |-> /\ e.n_var = e.n /\ e.n_obj = e.m /\ e.n_eq = e.ne
                                                     /\ e.n_ieq = IeqCount(e.ni, e.n, e.bound),
                           bounds |-> e.xl = e.lo /\ e.xu = e.hi]
    [] e.op = "quad" ->
        [objective_values_and_derivatives |-> QuadParts(e, e.obj, e.F, e.FJ, e.FH, FALSE),
         equality_values_and_derivatives |-> QuadParts(e, e.eq, e.E, e.EJ, e.EH, FALSE),
         inequality_values_and_derivatives |-> QuadParts(e, e.ieq, e.G, e.GJ, e.GH, e.bound)]
    [] e.op = "view" ->
        [objective_values |-> e.F = Vals(e, e.obj),
         equality_values |-> e.E = Vals(e, e.eq),
         inequality_values |-> e.G = Rows(e.X, LAMBDA x : IeqF(e.ieq, x, e.lo, e.hi, e.bound))]
    [] e.op = "agree" -> [agree |-> e.sameshape /\ \A i \in 1..Len(e.d) : Abs(e.d[i]) <= 10]
    [] e.op = "refused" -> [refused |-> ~e.accepted]
Init == t \in 1..Len(Traces) /\ l = 1 /\ s = Start
Next ==
  /\ l <= Len(Tr.ev) + 1
  /\ UNCHANGED t
  /\ IF l = Len(Tr.ev) + 1
     THEN /\ PrintT("@DONE " \o ToJson([t |-> t])) /\ l' = l + 1 /\ UNCHANGED s
     ELSE LET b == Bad(Clauses(Ev)) IN
          /\ s' = IF Ev.op = "factory" THEN After(s, [a |-> Ev.a, f |-> Ev.f, b |-> Ev.b]) ELSE s
          /\ IF b = {} THEN l' = l + 1
             ELSE /\ PrintT("@FAIL " \o ToJson([t |-> t, l |-> l, clauses |-> b]))
                  /\ l' = Len(Tr.ev) + 100
=============================================================================
