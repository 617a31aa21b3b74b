------------------------------ MODULE TraceMMD ------------------------------
(* Recorded lives of discrepancy indicators.                                    *)
(*  every event carries: kind "mmd" | "match", k (kernel), Y, T (the reference   *)
(*  set, or for "match" the target of every point), bn (weight in quarters)      *)
(*  op "value": v = all reported values (1e-5)                                   *)
(*  op "deriv": J, H (Jacobian and Hessian per point), gy, gx, hy, hx = every    *)
(*    reported gradient and Hessian in objective / decision space (1e-5, in      *)
(*    units of ln 2 for the Gaussian), tol                                      *)
EXTENDS MMD, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
Tr == Traces[t]
Ev == Tr.ev[l]

(* 1e5 * a / d by long division, truncated towards minus infinity *)
RECURSIVE Dec(_, _, _, _)
Dec(q, r, d, n) == IF n = 0 THEN q ELSE Dec(10 * q + (10 * r) \div d, (10 * r) % d, d, n - 1)
Fix(a, d) == Dec(a \div d, a % d, d, 5)
MulLn2(v) == (v \div 1000) * 693 + ((v \div 1000) * 147 + (v % 1000) * 693) \div 1000

N(e) == Len(e.Y)
M(e) == Len(e.T)
DimY(e) == Len(e.Y[1])
DenYY(e) == KDen(e.k) * N(e) * N(e)
DenYR(e) == KDen(e.k) * N(e) * (IF e.kind = "mmd" THEN M(e) ELSE 1)
Wgt(e, v) == IF e.kind = "match" THEN e.bn * v ELSE 4 * v          \* weight in quarters

Value(e) ==
  IF e.kind = "mmd"
  THEN Fix(SumK(e.k, e.T, e.T), KDen(e.k) * M(e) * M(e)) + Fix(SumK(e.k, e.Y, e.Y), DenYY(e))
       - 2 * Fix(SumK(e.k, e.T, e.Y), DenYR(e))
  ELSE (e.bn * Fix(SumK(e.k, e.Y, e.Y), DenYY(e))) \div 4
       + Fix(2 * N(e) * KDen(e.k) - 2 * SumMatched(e.k, e.Y, e.T), KDen(e.k) * N(e))

Tgt(e, i) == IF e.kind = "mmd" THEN e.T ELSE <<e.T[i]>>
(* the quarter weights are applied last so that no intermediate product overflows *)
Comb(e, yy, yr) == 2 * (Wgt(e, Fix(yy, DenYY(e))) \div 4 - Fix(yr, DenYR(e)))

GradY(e) == [i \in 1..N(e) |-> LET A == GOthers(e.k, e.Y, i) B == GSet(e.k, e.Y[i], Tgt(e, i)) IN
               [a \in 1..DimY(e) |-> Comb(e, A[a], B[a])]]
Mix2(e, v1, v2) == IF e.k.kind = "rbf" THEN v1 + MulLn2(v2) ELSE v1 + v2
HessY(e) == [i \in 1..N(e) |-> [j \in 1..N(e) |-> [a \in 1..DimY(e) |-> [b \in 1..DimY(e) |->
   IF i = j
   THEN Mix2(e, Comb(e, HOthers(e.k, e.Y, i, a, b, 1), HSet(e.k, e.Y[i], Tgt(e, i), a, b, 1)),
                Comb(e, HOthers(e.k, e.Y, i, a, b, 2), HSet(e.k, e.Y[i], Tgt(e, i), a, b, 2)))
   ELSE Mix2(e, Comb(e, HCross(e.k, e.Y[i], e.Y[j], a, b, 1), 0),
                Comb(e, HCross(e.k, e.Y[i], e.Y[j], a, b, 2), 0))]]]]

NX(e) == Len(e.J[1][1])
GradX(e, g) == [i \in 1..N(e) |-> [p \in 1..NX(e) |-> SumRange(DimY(e), LAMBDA a : g[i][a] * e.J[i][a][p])]]
HessX(e, g, h) == [i \in 1..N(e) |-> [j \in 1..N(e) |-> [p \in 1..NX(e) |-> [q \in 1..NX(e) |->
    SumRange(DimY(e), LAMBDA a : SumRange(DimY(e), LAMBDA b : e.J[i][a][p] * h[i][j][a][b] * e.J[j][b][q]))
    + (IF i = j THEN SumRange(DimY(e), LAMBDA a : g[i][a] * e.H[i][a][p][q]) ELSE 0)]]]]

Flat(h) == LET n == Len(h) d == Len(h[1][1]) IN
   [r \in 1..n * d |-> [c \in 1..n * d |-> h[(r - 1) \div d + 1][(c - 1) \div d + 1][((r - 1) % d) + 1][((c - 1) % d) + 1]]]

Clauses(e) ==
  CASE e.op = "raised" -> [no_exception |-> FALSE]
    [] e.op = "value" ->
        LET v == Value(e) IN
        [value |-> \A q \in 1..Len(e.v) : Close(e.v[q], v, e.tol),
         targets_are_the_references |-> e.known = 1,
         inputs_unmodified |-> e.unmod = 1]
    [] e.op = "deriv" ->
        LET gy == GradY(e) hy == HessY(e) gx == GradX(e, gy) hx == HessX(e, gy, hy) fy == Flat(hy) fx == Flat(hx) IN
        [objective_gradient |-> \A q \in 1..Len(e.gy) : CloseMat(e.gy[q], gy, e.tol),
         objective_hessian |-> \A q \in 1..Len(e.hy) : CloseMat(e.hy[q], fy, e.tol),
         decision_gradient |-> \A q \in 1..Len(e.gx) : CloseMat(e.gx[q], gx, e.tol * e.amp),
         decision_hessian |-> \A q \in 1..Len(e.hx) : CloseMat(e.hx[q], fx, e.tol * e.amp * e.amp),
         targets_are_the_references |-> e.known = 1,
         inputs_unmodified |-> e.unmod = 1]

Init == t \in 1..Len(Traces) /\ l = 1
Next ==
  /\ l <= Len(Tr.ev) + 1
  /\ UNCHANGED t
  /\ IF l = Len(Tr.ev) + 1
     THEN PrintT("@DONE " \o ToJson([t |-> t])) /\ l' = l + 1
     ELSE LET b == Bad(Clauses(Ev)) IN
          IF b = {} THEN l' = l + 1
          ELSE /\ PrintT("@FAIL " \o ToJson([t |-> t, l |-> l, clauses |-> b]))
               /\ l' = Len(Tr.ev) + 100
=============================================================================
