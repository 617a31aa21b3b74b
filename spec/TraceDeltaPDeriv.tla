-------------------------- MODULE TraceDeltaPDeriv --------------------------
(* Recorded derivative calls of the distances.                                 *)
(*  ev: kind "gd" | "igd" | "match"; p2; Y (objective points), J, T; ref        *)
(*      (reference points; for "match" the target of each point)               *)
(*      grads, hess: every returned gradient / Hessian times S * size,         *)
(*      size = |Y| for gd, |ref| for igd, 1 for matching                        *)
EXTENDS DeltaPDeriv, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<t, l>>
Tr == Traces[t]
Ev == Tr.ev[l]
NV(e) == Len(e.J[1][1])

(* reference positions each point is charged with *)
Charged(e, i) ==
  CASE e.kind = "gd" -> {TheNearest(e.Y[i], e.ref)}
    [] e.kind = "igd" -> {j \in 1..Len(e.ref) : TheNearest(e.ref[j], e.Y) = i}
    [] e.kind = "match" -> {i}
Gof(e, i, j) == LET d == VSub(e.Y[i], e.ref[j]) IN PGrad(Dist2(e.Y[i], e.ref[j]), GradQ(e.J[i], d), e.p2, e.S)
Hof(e, i, j) == LET d == VSub(e.Y[i], e.ref[j]) IN
   PHess(Dist2(e.Y[i], e.ref[j]), GradQ(e.J[i], d), HessQ(e.J[i], e.T[i], d), e.p2, e.S)

SumG(e, i) == LET C == SetToSeq(Charged(e, i)) G == [q \in 1..Len(C) |-> Gof(e, i, C[q])]
              IN [a \in 1..NV(e) |-> SumRange(Len(C), LAMBDA q : G[q][a])]
SumH(e, i) == LET C == SetToSeq(Charged(e, i)) H == [q \in 1..Len(C) |-> Hof(e, i, C[q])]
              IN [a \in 1..NV(e) |-> [b \in 1..NV(e) |-> SumRange(Len(C), LAMBDA q : H[q][a][b])]]

NoTies(e) == CASE e.kind = "gd" -> UniqueNearest(e.Y, e.ref)
               [] e.kind = "igd" -> UniqueNearest(e.ref, e.Y)
               [] OTHER -> TRUE
Exact(e) == \A i \in 1..Len(e.Y) : \A j \in Charged(e, i) :
    LET q == Dist2(e.Y[i], e.ref[j]) IN PowerOk(q, e.p2) /\ (q > 0 \/ e.p2 = 4)

Tol(e) == 3 + (IF e.kind = "igd" THEN Len(e.ref) ELSE 0)
Clauses(e) ==
  IF e.op = "raised" THEN [no_exception |-> FALSE]
  ELSE [precondition |-> NoTies(e) /\ Exact(e),
        gradient |-> \A i \in 1..Len(e.Y) : LET g == SumG(e, i) IN
            \A q \in 1..Len(e.grads) : CloseSeq(e.grads[q][i], g, Tol(e)),
        hessian |-> \A i \in 1..Len(e.Y) : LET h == SumH(e, i) IN
            \A q \in 1..Len(e.hess) : CloseMat(e.hess[q][i], h, Tol(e)),
        inputs_unmodified |-> e.unmod]

Init == t \in 1..Len(Traces) /\ l = 1
Next ==
  /\ l <= Len(Tr.ev) + 1
  /\ UNCHANGED t
  /\ IF l = Len(Tr.ev) + 1
     THEN PrintT("@DONE " \o ToJson([t |-> t])) /\ l' = l + 1
     ELSE LET b == Bad(Clauses(Ev)) IN
          IF b = {} THEN l' = l + 1
          ELSE /\ PrintT("@FAIL " \o ToJson([t |-> t, l |-> l, clauses |-> b]))
               /\ l' = Len(Tr.ev) + 100
=============================================================================
