------------------------------ MODULE TraceHVN ------------------------------
(* Recorded runs of the hypervolume Newton method.  Header of a trace: pb (the  *)
(* problem), ref, xl, xu (fixed point), budget (-1: none given), limit          *)
(*  op "start": given, X (both 1e-4), lam: clipping and initial multipliers      *)
(*  op "iter":  X, lam, feas, act (before; feas/act as measured on the recorded  *)
(*     floats), kept (positions of the points that survived), X1, lam1 (after),  *)
(*     step, slam (the step), s (step sizes, 2^-30 .. as numerator of 2^-20),     *)
(*     acts = active flags at the trial points per kept point and halving,       *)
(*     Y1 objective values after, near = point pairs closer than resolution,      *)
(*     hv = reported indicator value (1e-2)                                      *)
(*  op "end": bookkeeping of the finished run                                    *)
EXTENDS HVNewton, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
Tr == Traces[t]
Ev == Tr.ev[l]
pb == Tr.pb
Ref == Tr.ref
M == Len(Ref)
N(e) == Mn(Len(e.kept), Len(e.X1))

(* the surviving points, as points of the Newton system *)
Pnt(e, i) == [x |-> e.X[e.kept[i]], lam |-> e.lam[e.kept[i]], act |-> [c \in 1..NC(pb) |-> e.act[e.kept[i]][c] = 1]]
Fs(e) == [i \in 1..N(e) |-> e.feas[e.kept[i]] = 1]
YY(e) == [i \in 1..N(e) |-> FixF(pb.F, e.X[e.kept[i]])]
Apart(e) == \A i, j \in 1..N(e), k \in 1..M : i # j => Abs(YY(e)[i][k] - YY(e)[j][k]) >= 12
Inside(e) == \A i \in 1..N(e), k \in 1..M : YY(e)[i][k] <= Ref[k] - 12

(* flags measured by the recorder agree with the specification up to resolution *)
FlagsOk(e) == \A i \in 1..Len(e.X) :
   LET cv == CVal(pb, e.X[i]) IN
   /\ \A c \in 1..NC(pb) : IF c <= NEq(pb) THEN e.act[i][c] = 1
        ELSE (e.act[i][c] = 1 => cv[c] >= -12) /\ (e.act[i][c] = 0 => cv[c] <= 11)
   /\ (e.feas[i] = 1 => \A c \in 1..NC(pb) : IF c <= NEq(pb) THEN Abs(cv[c]) <= 12 ELSE e.act[i][c] = 0)
   /\ (e.feas[i] = 0 => \E c \in 1..NC(pb) : IF c <= NEq(pb) THEN cv[c] # 0 ELSE e.act[i][c] = 1)

Solves(e, A) ==
  LET I == SetToSortSeq(A, <) n == Len(I)
      P == [q \in 1..n |-> Pnt(e, I[q])]
      D == [q \in 1..n |-> [p |-> e.step[I[q]], l |-> e.slam[I[q]]]]
      R == LResidual(pb, P, Ref)
      L == LSys(pb, P, Ref, D)
      r == [q \in 1..n |-> VAdd(L[q], R[q])]
      big == MaxAbs(Flatten([q \in 1..n |-> D[q].p \o D[q].l]))
      mag(q) == MaxAbs(R[q])
      tol == 60 + MaxAbs(Flatten([q \in 1..n |-> D[q].p \o D[q].l])) \div 250 + MaxAbs(Flatten(R)) \div 400
      small(v, b) == \A q \in 1..n : \A a \in 1..Len(v[q]) : Abs(v[q][a]) <= b
      back == LSys(pb, P, Ref, [q \in 1..n |-> [p |-> SubSeq(r[q], 1, Len(P[q].x)), l |-> SubSeq(r[q], Len(P[q].x) + 1, Len(r[q]))]])
      \* least-squares solution of a singular system: the remainder is orthogonal to the range;
      \* unit displacements tell how much rounding of the remainder is amplified
      np == Len(P[1].x) nc == NC(pb)
      unit(q, a) == [k \in 1..n |-> [p |-> [b \in 1..np |-> IF k = q /\ a = b THEN S ELSE 0], l |-> [b \in 1..nc |-> IF k = q /\ a = np + b THEN S ELSE 0]]]
      K == Max({MaxAbs(Flatten(LSys(pb, P, Ref, unit(q, a)))) : q \in 1..n, a \in 1..np + nc})
      rnd == (K \div S) * (np + nc)          \* effect of the rounding of the displacement itself
  IN small(r, tol) \/ small(r, tol + rnd) \/ FMul(K, big) >= Top \div 3 \/ (\A q \in 1..n : \A a \in 1..Len(back[q]) : Abs(back[q][a]) <= 2 * tol + FMul(K, tol))

(* ---- line search of a layer ---- *)
Sz(e, i) == e.s[i]                                   \* 2^-20 units
Dist2Bound(e, i, a) == IF e.step[i][a] < 0 THEN Abs(e.X[e.kept[i]][a] - Tr.xl[a]) ELSE Abs(Tr.xu[a] - e.X[e.kept[i]][a])
MaxStep(e, A) ==     \* in units of 1e-4; only entries large enough to be resolved count
  IF Tr.limit = 0 THEN S
  ELSE LET C == {<<i, a>> \in A \X (1..Len(e.step[1])) : e.step[i][a] # 0}
       IN Min({S} \cup {FDiv(Dist2Bound(e, c[1], c[2]) \div 4, Abs(e.step[c[1]][c[2]])) : c \in C})
Half(j) == 1048576 \div (2 ^ j)
TrialPt(e, i, j) ==
  [x |-> [a \in 1..Len(e.step[i]) |-> e.X[e.kept[i]][a] + (e.step[i][a] \div (2 ^ j))],
   lam |-> [c \in 1..NC(pb) |-> e.lam[e.kept[i]][c] + (e.slam[i][c] \div (2 ^ j))],
   act |-> [c \in 1..NC(pb) |-> e.acts[i][j + 1][c] = 1]]
Search(e, A) ==     \* halvings of a full first step
  LET I == SetToSortSeq(A, <) n == Len(I)
      R0 == Flatten(LResidual(pb, [q \in 1..n |-> Pnt(e, I[q])], Ref))
      v(j) == LET T == [q \in 1..n |-> TrialPt(e, I[q], j)] Y == LY(pb, T) tol == 12 + MaxAbs(Flatten(Y)) \div 500 IN
              \* derivatives beyond the reference point or at tied coordinates are not prescribed
              IF \E q \in 1..n, k \in 1..M : Y[q][k] > Ref[k] - tol \/ \E r \in 1..q - 1 : Abs(Y[q][k] - Y[r][k]) < tol THEN 0
              ELSE Judge(Flatten(LResidual(pb, T, Ref)), R0)
      js == {j \in 0..Halvings : e.s[I[1]] = Half(j)}
  IN IF js = {} THEN FALSE
     ELSE LET j == CHOOSE x \in js : TRUE IN
          /\ \A q \in 0..j - 1 : v(q) # -1
          /\ j < Halvings => v(j) # 1

Iter(e) ==
  LET ps == Parts(YY(e), Fs(e)) ok == Apart(e) /\ Inside(e) IN
  [reduced_to_distinct_points |-> e.near = 1 \/ Keep(e.X) = e.kept,
   recorder_flags |-> FlagsOk(e),
   layer_shares_one_step_size |-> ok => \A A \in ps : \A i, j \in A : e.s[i] = e.s[j],
   newton_system_solved |-> ok /\ Tr.pre = 0 => \A A \in ps : Solves(e, A),
   step_size_range |-> \A i \in 1..N(e) : e.s[i] <= 1048576 /\ (e.s[i] > 0 \/ Tr.limit = 1),
   first_decreasing_halving |-> ok /\ Tr.limit = 0 => \A A \in ps : Search(e, A),
   limited_step |-> ok /\ Tr.limit = 1 => \A A \in ps : \A i \in A :
        LET mx == MaxStep(e, A) sz == (e.s[i] * 100) \div 10486 IN
        \/ (\E j \in 0..Halvings : Abs(sz * (2 ^ j) - mx) <= 20 + (mx \div 50) + (2 ^ j))
        \/ (\E c \in A \X (1..Len(e.step[1])) : Abs(e.step[c[1]][c[2]]) < 200 /\ mx < S)
        \/ mx < 40,
   moved_by_the_step |-> \A i \in 1..N(e) :
        /\ \A a \in 1..Len(e.step[i]) : Abs(e.X1[i][a] - e.X[e.kept[i]][a] - FMul(e.step[i][a], (e.s[i] * 100) \div 10486)) <= 4 + Abs(e.step[i][a]) \div 500
        /\ \A c \in 1..NC(pb) : Abs(e.lam1[i][c] - e.lam[e.kept[i]][c] - FMul(e.slam[i][c], (e.s[i] * 100) \div 10486)) <= 4 + Abs(e.slam[i][c]) \div 500,
   inactive_multipliers_unchanged |-> \A i \in 1..N(e) : \A c \in 1..NC(pb) :
        e.act[e.kept[i]][c] = 0 => e.lam1[i][c] = e.lam[e.kept[i]][c],
   objective_values_of_new_points |-> \A i \in 1..N(e) : CloseSeq(e.Y1[i], FixF(pb.F, e.X1[i]), 8 + MaxAbs(FixF(pb.F, e.X1[i])) \div 300),
   box_with_step_limit |-> Tr.limit = 1 => e.box = 1,
   indicator_of_the_points_before |-> e.hv > 90000 \/ Abs(e.hv - (FVol(Range0(YY(e)), Ref) \div 100)) <= 3 + Abs(e.hv) \div 200]

Clauses(e) ==
  CASE e.op = "raised" -> [no_exception |-> FALSE]
    [] e.op = "start" ->
        [as_many_points_as_given |-> Len(e.X) = Len(e.given),
         clipped_to_the_box |-> \A i \in 1..Len(e.given) : e.X[i] = [a \in 1..Len(Tr.xl) |-> Mx(Tr.xl[a], Mn(Tr.xu[a], e.given[i][a]))],
         multipliers_start_at_1_over_n |-> \A i \in 1..Len(e.lam) : e.lam[i] = [c \in 1..NC(pb) |-> (2 * S + Len(e.X)) \div (2 * Len(e.X))],
         callers_array_untouched |-> e.same = 1]
    [] e.op = "iter" -> Iter(e)
    [] e.op = "end" ->
        [exact_number_of_iterations |-> e.iters = Tr.budget,
         reported |-> e.reported = Tr.budget,
         one_record_per_iteration |-> \A q \in 1..Len(e.lens) : e.lens[q] = Tr.budget,
         records_unaltered |-> e.unaltered = 1,
         returns_final_points |-> e.final = 1]

Init == t \in 1..Len(Traces) /\ l = 1
Next ==
  /\ l <= Len(Tr.ev) + 1
  /\ UNCHANGED t
  /\ IF l = Len(Tr.ev) + 1
     THEN PrintT("@DONE " \o ToJson([t |-> t])) /\ l' = l + 1
     ELSE LET b == Bad(Clauses(Ev)) IN
          IF b = {} THEN l' = l + 1
          ELSE /\ PrintT("@FAIL " \o ToJson([t |-> t, l |-> l, clauses |-> b]))
               /\ l' = Len(Tr.ev) + 100
=============================================================================
