------------------------------ MODULE TraceDPN ------------------------------
(* Recorded runs of the Delta_p Newton method.  Header: pb, xl, xu, budget, type *)
(* ("gd"/"igd"/"deltap"), eta (per component), ref0 (all reference points)        *)
(*  op "start": given, X, lam                                                    *)
(*  op "iter": first (1 in the first iteration), X, lam, feas/act, M (targets     *)
(*     before; in the first iteration the shifted ones of the end of the          *)
(*     iteration minus the shift), mlab, lab (components of targets and points),   *)
(*     zero[i] = targets point i coincides with, still[i] = its last step was 0,   *)
(*     doubt = some of these were within a decade of the tolerance,               *)
(*     M1, mlab1 (targets after), step, slam, s (2^-20), actm/acts (active flags at the   *)
(*     largest and at the chosen step size), X1, lam1, Y1, val (reported value),   *)
(*     tiny[i] = some entry of the step is too small to tell its fraction,  *)
(*     zstep (all entries of all steps below 1e-8)                                *)
(*  op "end"                                                                     *)
EXTENDS DPNewton, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
Tr == Traces[t]
Ev == Tr.ev[l]
pb == Tr.pb
NP(e) == Len(e.X)
Pnt(e, i) == [x |-> e.X[i], lam |-> e.lam[i], act |-> [c \in 1..NC(pb) |-> e.act[i][c] = 1]]
Trial(e, i, s, act) ==
  [x |-> [a \in 1..Len(e.step[i]) |-> e.X[i][a] + FMul(e.step[i][a], s)], lam |-> [c \in 1..NC(pb) |-> e.lam[i][c] + FMul(e.slam[i][c], s)],
   act |-> [c \in 1..NC(pb) |-> act[i][c] = 1]]
YY(e) == [i \in 1..NP(e) |-> FixF(pb.F, e.X[i])]
Tol(Y) == 6 + 4 * Len(Y)
TolT(Y, i, M) == Tol(Y) + (IF \E j \in 1..Len(M) : MaxAbs(VSub(Y[i], M[j])) > 170000 THEN 700 ELSE 0)
Due(e, p) == IF e.first = 1 THEN 1..Len(e.M) ELSE {p[i] : i \in {q \in 1..NP(e) : p[q] \in Range0(e.zero[q]) /\ e.still[q] = 1}}
By(e) == IF e.first = 1 THEN 8 ELSE 5
SameSet(A, B, tol) == Len(A) = Len(B) /\ \E p \in Perms(Len(A)) : \A i \in 1..Len(A) : CloseSeq(A[i], B[p[i]], tol)

(* the distance in force, of the points and targets before the iteration; {} = too close to call is both *)
Modes(e, p) ==
  IF Tr.type # "deltap" THEN {Tr.type}
  ELSE LET g == GDv(YY(e), IF e.first = 1 THEN Tr.ref0 ELSE e.M) d == IGDv(YY(e), e.M, p) tol == 12 + d \div 300 + g \div 300 + (5000 * NP(e)) \div (g + 20) IN
       IF g > d + tol THEN {"gd"} ELSE IF d > g + tol THEN {"igd"} ELSE {"gd", "igd"}
Den(e, mode) == IF mode = "gd" THEN NP(e) ELSE 1
(* targets a point may be led to *)
Towards(e, mode, M, i, lab) == IF mode = "gd" THEN Nearest(YY(e)[i], M, 14 + FDist2(YY(e)[i], M[1]) \div 500)
                               ELSE {p[i] : p \in Near(YY(e), M, lab, e.mlab1, Tol(lab))}

(* size of the rounding of a displacement, amplified by the system *)
Unit(e, a) == [p |-> [b \in 1..Len(e.X[1]) |-> IF a = b THEN S ELSE 0], l |-> [b \in 1..NC(pb) |-> IF a = Len(e.X[1]) + b THEN S ELSE 0]]
Dim(e) == Len(e.X[1]) + NC(pb)
Small(v, b) == \A a \in 1..Len(v) : Abs(v[a]) <= b
Solves(e, i, tg, den) ==
  LET P == Pnt(e, i)
      D == [p |-> e.step[i], l |-> e.slam[i]]
      R == PResidual(pb, P, tg, 1, den)
      A(d) == PSys(pb, P, tg, 1, den, d)
      r == VAdd(A(D), R)
      n == Len(P.x)
      big == MaxAbs(D.p \o D.l)
      col == [a \in 1..Dim(e) |-> A(Unit(e, a))]
      K == MaxAbs(Flatten(col))
      mj == MaxAbs(Flatten(FixJ(pb.F, P.x)))
      tol == 14 + big \div 500 + MaxAbs(R) \div 500 + (K \div S) * Dim(e)
      back == A([p |-> SubSeq(r, 1, n), l |-> SubSeq(r, n + 1, Len(r))])
      (* an axis blocked by a bound was dropped: some outward amount v along it completes the step *)
      atb(a, lo) == IF lo THEN e.X[i][a] - Tr.xl[a] = 0 ELSE Tr.xu[a] - e.X[i][a] = 0
      fits(a, lo) ==
        LET c == col[a] cc == FDot(c, c) rc == FDot(r, c) IN
        /\ atb(a, lo) /\ e.step[i][a] = 0 /\ cc > 0
        /\ \/ Abs(rc) > 9000000 \/ cc > 9000000
           \/ LET v == -(Sgn(rc) * FDiv(Abs(rc), cc)) w == [q \in 1..Len(r) |-> r[q] + FMul(c[q], v)]
                  bk == A([p |-> SubSeq(w, 1, n), l |-> SubSeq(w, n + 1, Len(w))]) tv == tol + Abs(v) \div 300 + MaxAbs(w) \div 1000 + FMul(K, 2 + (Abs(v) \div 2000)) IN
              (IF lo THEN v <= tv ELSE v >= -tv) /\ (Small(w, tv) \/ Small(bk, 2 * tv + FMul(K, tv)))
  IN \/ Small(r, tol)
     \/ FMul(K, big) >= Top \div 3 \/ FMul(FMul(mj, mj), big) >= Top \div 6        \* beyond the fixed-point range
     \/ Small(back, 2 * tol + FMul(K, tol))
     \/ \E a \in 1..n : fits(a, TRUE) \/ fits(a, FALSE)

(* ---- step sizes ---- *)
MaxS(e, i) ==
  LET room(a) == IF e.step[i][a] < 0 THEN e.X[i][a] - Tr.xl[a] ELSE Tr.xu[a] - e.X[i][a]
  IN Min({S} \cup {FDiv(Abs(room(a)), Abs(e.step[i][a])) : a \in {q \in 1..Len(e.step[i]) : e.step[i][q] # 0}})
Sz(e, i) == (e.s[i] * 100) \div 10486        \* in units of 1e-4
(* only steps long enough to be resolved: the fraction is known to about 1/|entry| *)
Fine(e, i) == e.tiny[i] = 0 /\ \A a \in 1..Len(e.step[i]) : Abs(e.step[i][a]) >= 300 \/ e.step[i][a] = 0
TolS(m) == 25 + m \div 60
Tgt(e, mode, i, x) ==       \* targets a trial point may be led to
  LET Y == [k \in 1..NP(e) |-> IF k = i THEN FixF(pb.F, x) ELSE YY(e)[k]] IN
  IF mode = "gd" THEN Nearest(Y[i], e.M1, 14 + FDist2(Y[i], e.M1[1]) \div 500)
  ELSE {p[i] : p \in Near(Y, e.M1, e.lab, e.mlab1, TolT(Y, i, e.M1))}
(* s < 0: the point the run has moved to *)
Verdict(e, mode, i, s, act, tg0) ==
  LET P == IF s < 0 THEN [x |-> e.X1[i], lam |-> e.lam1[i], act |-> [c \in 1..NC(pb) |-> act[i][c] = 1]] ELSE Trial(e, i, s, act)
      T == Tgt(e, mode, i, P.x)
      R0 == PResidual(pb, Pnt(e, i), e.M1[tg0], 1, Den(e, mode))
      js == {Judge(PResidual(pb, P, e.M1[j], 1, Den(e, mode)), R0) : j \in T}
  IN IF MaxAbs(R0) > Top \div 4 \/ (Len(Tr.eta) > 1 /\ MaxAbs(VSub(FixF(pb.F, P.x), YY(e)[i])) > 100000) THEN 0 ELSE IF Cardinality(js) = 1 THEN CHOOSE j \in js : TRUE ELSE 0
SizeOk(e, mode, i, tg0) ==
  LET m == MaxS(e, i) s == Sz(e, i) IN
  \/ ~Fine(e, i)
  \/ (Abs(s - m) <= TolS(m) /\ Verdict(e, mode, i, -1, e.acts, tg0) # 1)
  \/ /\ s < m - TolS(m) + 40
     /\ s <= FMul(m, 6000) + TolS(m)                      \* the first reduction is at least to 0.6
     /\ Verdict(e, mode, i, m, e.actm, tg0) # -1
     /\ \/ s <= FMul(m, 170) + 4                          \* eight reductions
        \/ Verdict(e, mode, i, -1, e.acts, tg0) # 1

Iter(e) ==
  LET ps == Near(YY(e), e.M, e.lab, e.mlab, Tol(e.lab))
      gd(r) == GDv(YY(e), r)
      val(p) == Mx(gd(IF e.first = 1 THEN Tr.ref0 ELSE e.M), IGDv(YY(e), e.M, p)) IN
  [targets_shifted_when_due |-> e.doubt = 1 \/ \E p \in ps : SameSet(e.M1, Shifted(e.M, e.mlab, Tr.eta, Due(e, p), By(e)), 4),
   own_newton_system_solved |-> e.doubt = 1 \/ Tr.pre = 1 \/ \E p \in ps : \E mode \in Modes(e, p) : \A i \in 1..NP(e) :
        \E j \in Towards(e, mode, e.M1, i, e.lab) : Solves(e, i, e.M1[j], Den(e, mode)),
   step_sizes |-> e.doubt = 1 \/ Tr.pre = 1 \/ e.zstep = 1 \/ \E p \in ps : \E mode \in Modes(e, p) : \A i \in 1..NP(e) :
        \E j \in Towards(e, mode, e.M1, i, e.lab) : Solves(e, i, e.M1[j], Den(e, mode)) /\ SizeOk(e, mode, i, j),
   largest_distance_reported |-> e.val > 1500000 \/ \E p \in ps : Abs(e.val - val(p)) <= 14 + val(p) \div 200 + (5000 * NP(e)) \div (val(p) + 20),
   step_size_range |-> \A i \in 1..NP(e) : e.s[i] >= 0 /\ e.s[i] <= 1048576,
   moved_by_the_step |-> \A i \in 1..NP(e) :
        /\ \A a \in 1..Len(e.step[i]) : Abs(e.X1[i][a] - e.X[i][a] - FMul(e.step[i][a], Sz(e, i))) <= 4 + Abs(e.step[i][a]) \div 500
        /\ \A c \in 1..NC(pb) : Abs(e.lam1[i][c] - e.lam[i][c] - FMul(e.slam[i][c], Sz(e, i))) <= 4 + Abs(e.slam[i][c]) \div 500,
   inactive_multipliers_unchanged |-> \A i \in 1..NP(e) : \A c \in 1..NC(pb) : e.act[i][c] = 0 => e.lam1[i][c] = e.lam[i][c],
   objective_values_of_new_points |-> \A i \in 1..NP(e) : CloseSeq(e.Y1[i], FixF(pb.F, e.X1[i]), 8 + MaxAbs(FixF(pb.F, e.X1[i])) \div 300),
   stays_in_the_box |-> e.box = 1]

Clauses(e) ==
  CASE e.op = "raised" -> [no_exception |-> FALSE]
    [] e.op = "start" ->
        [as_many_points_as_given |-> Len(e.X) = Len(e.given),
         clipped_to_the_box |-> \A i \in 1..Len(e.given) : e.X[i] = [a \in 1..Len(Tr.xl) |-> Mx(Tr.xl[a], Mn(Tr.xu[a], e.given[i][a]))],
         multipliers_start_at_zero |-> \A i \in 1..Len(e.lam) : \A c \in 1..NC(pb) : e.lam[i][c] = 0,
         callers_array_untouched |-> e.same = 1]
    [] e.op = "iter" -> Iter(e)
    [] e.op = "end" ->
        [exact_number_of_iterations |-> e.iters = Tr.budget,
         reported |-> e.reported = Tr.budget,
         one_record_per_iteration |-> \A q \in 1..Len(e.lens) : e.lens[q] = Tr.budget,
         records_unaltered |-> e.unaltered = 1,
         returns_final_points |-> e.final = 1]

Init == t \in 1..Len(Traces) /\ l = 1
Next ==
  /\ l <= Len(Tr.ev) + 1
  /\ UNCHANGED t
  /\ IF l = Len(Tr.ev) + 1
     THEN PrintT("@DONE " \o ToJson([t |-> t])) /\ l' = l + 1
     ELSE LET b == Bad(Clauses(Ev)) IN
          IF b = {} THEN l' = l + 1
          ELSE /\ PrintT("@FAIL " \o ToJson([t |-> t, l |-> l, clauses |-> b]))
               /\ l' = Len(Tr.ev) + 100
=============================================================================
