------------------------------ MODULE TraceLara ------------------------------
(* Recorded runs of the gradient-based optimizer.  Header: F, xl, xu, budget         *)
(*  op "start": given, X, same (caller's array untouched)                              *)
(*  op "iter": X, at (bounds a point sits at), cls (cls[i] = first point i coincides    *)
(*     with), doubt (a distance near one of these tolerances), X1, Y1, inbox, want       *)
(*     (points the model reaches, or <<>>)                                                *)
(*  op "end"                                                                               *)
EXTENDS Lara, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
Tr == Traces[t]
Ev == Tr.ev[l]
Reps(e) == SelectSeq([i \in 1..Len(e.X) |-> i], LAMBDA i : e.cls[i] = i)
(* some order of the points fits *)
Fits(n, A(_, _)) == (\A i \in 1..n : A(i, i)) \/ (n <= 5 /\ \E p \in Perms(n) : \A i \in 1..n : A(i, p[i]))
MovedOk(e) ==
  LET r == Reps(e) n == Len(r)
      X == [i \in 1..n |-> e.X[r[i]]]
      h == [i \in 1..n |-> HeadTol(Tr.F, X[i])]
      D == [i \in 1..n |-> Kept(Heading(Tr.F, X[i]), e.at[r[i]])]
      s == Longest(X, D, h, Tr.xl, Tr.xu)
      \* a component of uncertain sign may or may not be blocked
      ok(i, j) == \A a \in 1..Len(Tr.xl) : Reaches(X[i][a], D[i][a], h[i], s, e.X1[j][a])
  IN n = Len(e.X1) /\ Fits(n, ok)
Clauses(e) ==
  CASE e.op = "raised" -> [no_exception |-> FALSE]
    [] e.op = "start" ->
        [clipped_to_the_box |-> Len(e.X) = Len(e.given) /\ \A i \in 1..Len(e.given) : e.X[i] = [a \in 1..Len(Tr.xl) |-> Mx(Tr.xl[a], Mn(Tr.xu[a], e.given[i][a]))],
         callers_array_untouched |-> e.same = 1]
    [] e.op = "sampled" -> [as_many_points_as_requested |-> e.n = e.asked, start_in_the_box |-> e.inbox = 1]
    [] e.op = "iter" ->
        [coinciding_points_reduced |-> e.doubt = 1 \/ Len(e.X1) = Len(Reps(e)),
         longest_common_step_along_the_heading |-> e.doubt = 1 \/ (\E i \in 1..Len(e.X) : ~Steep(Tr.F, e.X[i])) \/ MovedOk(e),
         points_stay_in_the_box |-> e.inbox = 1,
         follows_the_model |-> e.want = <<>> \/ (Len(e.want) = Len(e.X1) /\ Fits(Len(e.want), LAMBDA i, j : CloseSeq(e.X1[j], e.want[i], 1))),
         objective_values_of_new_points |-> Len(e.Y1) = Len(e.X1) /\ \A i \in 1..Len(e.X1) : CloseSeq(e.Y1[i], FixF(Tr.F, e.X1[i]), 8 + MaxAbs(FixF(Tr.F, e.X1[i])) \div 300)]
    [] e.op = "end" ->
        [exact_number_of_iterations |-> e.iters = Tr.budget,
         reported |-> e.reported = Tr.budget,
         one_record_per_iteration |-> \A q \in 1..Len(e.lens) : e.lens[q] = Tr.budget,
         records_unaltered |-> e.unaltered = 1,
         returns_final_points |-> e.final = 1]
Init == t \in 1..Len(Traces) /\ l = 1
Next ==
  /\ l <= Len(Tr.ev) + 1
  /\ UNCHANGED t
  /\ IF l = Len(Tr.ev) + 1
     THEN PrintT("@DONE " \o ToJson([t |-> t])) /\ l' = l + 1
     ELSE LET b == Bad(Clauses(Ev)) IN
          IF b = {} THEN l' = l + 1
          ELSE /\ PrintT("@FAIL " \o ToJson([t |-> t, l |-> l, clauses |-> b]))
               /\ l' = Len(Tr.ev) + 100
=============================================================================
