------------------------------ MODULE TraceMMDN ------------------------------
(* Recorded runs of the MMD Newton method.  Header: pb, xl, xu, budget, c (match,  *)
(* bn), k (kernel), eta (per component), ref0                                       *)
(*  op "start": given, X, lam                                                       *)
(*  op "iter": first, X, lam, act, M (targets before), mlab, lab (components of      *)
(*     targets and points), M1, mlab1 (targets after), zero[i] = targets point i      *)
(*     coincides with, still[i] = its last step was 0, doubt = some of these were     *)
(*     within a decade of the tolerance, calm = no kernel tails, step, slam, s (the shared step size, 2^-20),  *)
(*     acts[j][i] active flags at the trial points, X1, lam1, Y1, val (1e-4),          *)
(*     zstep = all entries of the step below 1e-8                                      *)
(*  op "end"                                                                           *)
EXTENDS MMDNewton, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
Tr == Traces[t]
Ev == Tr.ev[l]
pb == Tr.pb
C0 == [match |-> Tr.match = 1, bn |-> Tr.bn, sc |-> 1]
With(sc) == [C0 EXCEPT !.sc = sc]
NP(e) == Len(e.X)
Pnts(e) == [i \in 1..NP(e) |-> [x |-> e.X[i], lam |-> e.lam[i], act |-> [q \in 1..NC(pb) |-> e.act[i][q] = 1]]]
YY(e) == [i \in 1..NP(e) |-> FixF(pb.F, e.X[i])]
Tol(Y) == 6 + 4 * Len(Y)
TolT(Y, M) == Tol(Y) + (IF \E i \in 1..Len(Y) : \E j \in 1..Len(M) : MaxAbs(VSub(Y[i], M[j])) > 170000 THEN 700 ELSE 0)
(* assignments of points to targets; without matching there is nothing to assign *)
(* clusters of points may be given to another component than the closest one *)
Match(e, Y, M, mlab, tol) == IF C0.match THEN UNION {Near(Y, M, [i \in 1..NP(e) |-> g[e.lab[i]]], mlab, tol) : g \in Perms(Len(Tr.eta))} ELSE {[i \in 1..NP(e) |-> i]}
Due(e, p) == IF e.first = 1 THEN 1..Len(e.M)
             ELSE LET d == {q \in 1..NP(e) : e.still[q] = 1 /\ (IF C0.match THEN p[q] \in Range0(e.zero[q]) ELSE e.zero[q] # <<>>)} IN
                  IF C0.match THEN {p[i] : i \in d} ELSE IF d = {} THEN {} ELSE 1..Len(e.M)
SameSet(A, B, tol) == Len(A) = Len(B) /\ (CloseMat(A, B, tol) \/ (Len(A) <= 5 /\ \E p \in Perms(Len(A)) : \A i \in 1..Len(A) : CloseSeq(A[i], B[p[i]], tol)))

Small(v, b) == \A q \in 1..Len(v) : \A a \in 1..Len(v[q]) : Abs(v[q][a]) <= b
Room(v) == IF v < Top \div 300 THEN 100 ELSE IF v < Top \div 30 THEN 10 ELSE 1
Solves(e, p) ==
  LET P == Pnts(e) n == NP(e) np == Len(P[1].x) nc == NC(pb)
      D0 == [q \in 1..n |-> [p |-> e.step[q], l |-> e.slam[q]]]
      big == MaxAbs(Flatten([q \in 1..n |-> D0[q].p \o D0[q].l]))
      unit(q, a) == [k \in 1..n |-> [p |-> [b \in 1..np |-> IF k = q /\ a = b THEN S ELSE 0], l |-> [b \in 1..nc |-> IF k = q /\ a = np + b THEN S ELSE 0]]]
      Ks(sc) == Max({MaxAbs(Flatten(MSys(pb, With(sc), Tr.k, P, e.M1, p, unit(q, a)))) : q \in 1..n, a \in 1..np + nc})
      K1 == Ks(1)
      mj == Max({MaxAbs(Flatten(FixJ(pb.F, P[q].x))) : q \in 1..n})
      \* no intermediate result may saturate either
      Y == JY(pb, P)
      mk == LET dd == {FDist2(Y[i], e.M1[j]) : i \in 1..n, j \in 1..Len(e.M1)} \cup {FDist2(Y[i], Y[j]) : i, j \in 1..n} IN
            Max({2 * Abs(KV1(Tr.k, s, 1)) + FMul(4 * Abs(KV2(Tr.k, s, 1)), s) : s \in dd})
      mid == FMul(NN(P) * Mx(mk, 1), FMul(Mx(mj, S), FMul(Mx(mj, S), Mx(big, S))))
      sc == Room(Mx(mid, FMul(K1, Mx(big, S))))
      K == IF sc = 1 THEN K1 ELSE Ks(sc)
      A(D) == MSys(pb, With(sc), Tr.k, P, e.M1, p, D)
      R == MResidual(pb, With(sc), Tr.k, P, e.M1, p)
      L == A(D0)
      r == [q \in 1..n |-> VAdd(L[q], R[q])]
      \* rounding of kernel values and points is amplified by the Jacobians and the displacement
      lk == CASE Tr.k.kind = "rbf" -> RDiv(LnW(Tr.k), 100) [] Tr.k.kind = "rq" -> S \div Tr.k.a [] OTHER -> S
      tol == 20 + FMul(NN(P) * 2, FMul(mj, S + FMul(mj, big))) + FMul(FMul(K, Mx(big, S)), S + FMul(mj, S + 4 * lk)) \div 4000 + (K \div S) * (np + nc)
      back == A([q \in 1..n |-> [p |-> SubSeq(r[q], 1, np), l |-> SubSeq(r[q], np + 1, Len(r[q]))]])
  IN \/ Small(r, tol)
     \/ mid >= Top \div 3 \/ FMul(K, big) >= Top \div 3 \/ FMul(FMul(mj, mj), big) >= Top \div 6
     \/ Small(back, 2 * tol + FMul(K, tol))

(* ---- line search ---- *)
Half(j) == 1048576 \div (2 ^ j)
Trial(e, j) == [i \in 1..NP(e) |->
  [x |-> [a \in 1..Len(e.step[i]) |-> e.X[i][a] + (e.step[i][a] \div (2 ^ j))],
   lam |-> [q \in 1..NC(pb) |-> e.lam[i][q] + (e.slam[i][q] \div (2 ^ j))],
   act |-> [q \in 1..NC(pb) |-> e.acts[j + 1][i][q] = 1]]]
FarB == IF Tr.k.kind = "poly" /\ Tr.k.b # 0 THEN 50000 ELSE 100000
Far(e, T) == \E i, j \in 1..NP(e) : \E q \in 1..Len(e.M1) :
   MaxAbs(VSub(FixF(pb.F, T[i].x), e.M1[q])) > FarB \/ MaxAbs(VSub(FixF(pb.F, T[i].x), FixF(pb.F, T[j].x))) > FarB
Search(e, p0) ==
  LET C1 == With(Room(4 * MaxAbs(MNorm(pb, C0, Tr.k, Pnts(e), e.M1, p0))))
      R0 == MNorm(pb, C1, Tr.k, Pnts(e), e.M1, p0)
      \* residuals that the rounding of the points alone can cause are not judged
      unit(q, a) == [k \in 1..NP(e) |-> [p |-> [b \in 1..Len(e.X[1]) |-> IF k = q /\ a = b THEN S ELSE 0], l |-> [b \in 1..NC(pb) |-> 0]]]
      K == Max({MaxAbs(Flatten(MSys(pb, C1, Tr.k, Pnts(e), e.M1, p0, unit(q, a)))) : q \in 1..NP(e), a \in 1..Len(e.X[1])})
      v(j) == LET T == Trial(e, j) Y == [i \in 1..NP(e) |-> FixF(pb.F, T[i].x)] IN
              IF Far(e, T) \/ MaxAbs(R0) < K \div 80 THEN 0
              ELSE LET js == {Judge(MNorm(pb, C1, Tr.k, T, e.M1, p), R0) : p \in Match(e, Y, e.M1, e.mlab1, TolT(Y, e.M1))} IN
                   IF Cardinality(js) = 1 THEN CHOOSE x \in js : TRUE ELSE 0
      js == {j \in 0..Halvings : e.s = Half(j)}
  IN IF js = {} THEN FALSE
     ELSE LET j == CHOOSE x \in js : TRUE IN
          /\ \A q \in 0..j - 1 : v(q) # -1
          /\ j < Halvings => v(j) # 1
Sz(e) == (e.s * 100) \div 10486

Iter(e) ==
  LET ps == Match(e, YY(e), e.M, e.mlab, Tol(e.lab))
      ps1 == Match(e, YY(e), e.M1, e.mlab1, TolT(YY(e), e.M1)) IN
  [targets_shifted_when_due |-> e.doubt = 1 \/ \E p \in ps : SameSet(e.M1, Shifted(e.M, e.mlab, Tr.eta, Due(e, p), 8), 4),
   joint_newton_system_solved |-> Tr.pre = 1 \/ e.calm = 0 \/ \E p \in ps1 : Solves(e, p),
   first_decreasing_halving |-> Tr.pre = 1 \/ e.calm = 0 \/ e.zstep = 1 \/ \E p \in ps1 : Search(e, p),
   step_size_range |-> e.s > 0 /\ e.s <= 1048576,
   discrepancy_reported |-> \E p \in ps : LET v == MValue(C0, Tr.k, YY(e), e.M, p) IN Abs(e.val - v) <= 30 + Abs(v) \div 300,
   moved_by_the_step |-> \A i \in 1..NP(e) :
        /\ \A a \in 1..Len(e.step[i]) : Abs(e.X1[i][a] - e.X[i][a] - FMul(e.step[i][a], Sz(e))) <= 4 + Abs(e.step[i][a]) \div 500
        /\ \A q \in 1..NC(pb) : Abs(e.lam1[i][q] - e.lam[i][q] - FMul(e.slam[i][q], Sz(e))) <= 4 + Abs(e.slam[i][q]) \div 500,
   inactive_multipliers_unchanged |-> \A i \in 1..NP(e) : \A q \in 1..NC(pb) : e.act[i][q] = 0 => e.lam1[i][q] = e.lam[i][q],
   objective_values_of_new_points |-> \A i \in 1..NP(e) : CloseSeq(e.Y1[i], FixF(pb.F, e.X1[i]), 8 + MaxAbs(FixF(pb.F, e.X1[i])) \div 300)]

Clauses(e) ==
  CASE e.op = "raised" -> [no_exception |-> FALSE]
    [] e.op = "start" ->
        [as_many_points_as_given |-> Len(e.X) = Len(e.given),
         clipped_to_the_box |-> \A i \in 1..Len(e.given) : e.X[i] = [a \in 1..Len(Tr.xl) |-> Mx(Tr.xl[a], Mn(Tr.xu[a], e.given[i][a]))],
         multipliers_start_at_zero |-> \A i \in 1..Len(e.lam) : \A q \in 1..NC(pb) : e.lam[i][q] = 0,
         callers_array_untouched |-> e.same = 1]
    [] e.op = "iter" -> Iter(e)
    [] e.op = "end" ->
        [exact_number_of_iterations |-> e.iters = Tr.budget,
         reported |-> e.reported = Tr.budget,
         one_record_per_iteration |-> \A q \in 1..Len(e.lens) : e.lens[q] = Tr.budget,
         records_unaltered |-> e.unaltered = 1,
         returns_final_points |-> e.final = 1]

Init == t \in 1..Len(Traces) /\ l = 1
Next ==
  /\ l <= Len(Tr.ev) + 1
  /\ UNCHANGED t
  /\ IF l = Len(Tr.ev) + 1
     THEN PrintT("@DONE " \o ToJson([t |-> t])) /\ l' = l + 1
     ELSE LET b == Bad(Clauses(Ev)) IN
          IF b = {} THEN l' = l + 1
          ELSE /\ PrintT("@FAIL " \o ToJson([t |-> t, l |-> l, clauses |-> b]))
               /\ l' = Len(Tr.ev) + 100
=============================================================================
