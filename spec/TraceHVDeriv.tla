---------------------------- MODULE TraceHVDeriv ----------------------------
(* Recorded calls of the hypervolume derivatives.  One trace is one           *)
(* derivative object (fixed objective map, reference point and sense); each   *)
(* event is one query.                                                        *)
(*   ev: pts   objective points in minimization sense (integers)              *)
(*       sign  1 minimization, -1 maximization                                *)
(*       J[i]  objective Jacobians (as the user states them), m x n           *)
(*       T[i]  objective Hessians, m x n x n                                  *)
(*       grads every returned decision-space gradient, N x n, times S         *)
(*       hess  returned decision-space Hessians, (N n) x (N n), times S       *)
EXTENDS Hypervolume, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<t, l>>
Tr == Traces[t]
Ev == Tr.ev[l]

N(e) == Len(e.pts)
M == Len(Tr.ref)
NV(e) == Len(e.J[1][1])

(* gradient with respect to the objectives, as an N x m table *)
GY(e) == LET g == HVGrad(e.pts, Tr.ref) IN [i \in 1..N(e) |-> [k \in 1..M |-> g[(i - 1) * M + k]]]
GX(e) == LET G == GY(e) IN [i \in 1..N(e) |-> VScale(e.sign, VecMat(G[i], e.J[i]))]

HX(e) ==
  LET G == GY(e) H == HVHess(e.pts, Tr.ref) n == NV(e)
      Blk(i, j) == [k \in 1..M |-> [q \in 1..M |-> H[(i - 1) * M + k][(j - 1) * M + q]]]
      Curv(i) == [a \in 1..n |-> [b \in 1..n |-> e.sign * SumRange(M, LAMBDA k : G[i][k] * e.T[i][k][a][b])]]
      Full(i, j) == LET B == MatMul(MatMul(Transpose(e.J[i]), Blk(i, j)), e.J[j])
                    IN IF i # j THEN B ELSE [a \in 1..n |-> VAdd(B[a], Curv(i)[a])]
      F == [i \in 1..N(e) |-> [j \in 1..N(e) |-> Full(i, j)]]
  IN [u \in 1..(N(e) * n) |-> [v \in 1..(N(e) * n) |-> F[Pt(u, n)][Pt(v, n)][Ob(u, n)][Ob(v, n)]]]

Scaled(A, S) == [i \in 1..Len(A) |-> VScale(S, A[i])]

Clauses(e) ==
  IF e.op = "raised" THEN [no_exception |-> FALSE]
  ELSE
    [ precondition |-> Generic(e.pts, Tr.ref, 2),
      gradient |-> LET g == Scaled(GX(e), e.S) IN \A q \in 1..Len(e.grads) : CloseMat(e.grads[q], g, 1),
      dominated_flat |-> \A i \in 1..N(e) : (\E j \in 1..N(e) : Dom(e.pts[j], e.pts[i]))
           => \A q \in 1..Len(e.grads) : \A a \in 1..NV(e) : e.grads[q][i][a] = 0,
      hessian |-> e.hess = <<>> \/ LET h == Scaled(HX(e), e.S) IN \A q \in 1..Len(e.hess) : CloseMat(e.hess[q], h, 1),
      symmetric |-> \A q \in 1..Len(e.hess) : LET A == e.hess[q] IN
           \A u \in 1..Len(A) : \A v \in 1..Len(A) : Close(A[u][v], A[v][u], 0),
      inputs_unmodified |-> e.unmod ]

Init == t \in 1..Len(Traces) /\ l = 1
Next ==
  /\ l <= Len(Tr.ev) + 1
  /\ UNCHANGED t
  /\ IF l = Len(Tr.ev) + 1
     THEN PrintT("@DONE " \o ToJson([t |-> t])) /\ l' = l + 1
     ELSE LET b == Bad(Clauses(Ev)) IN
          IF b = {} THEN l' = l + 1
          ELSE /\ PrintT("@FAIL " \o ToJson([t |-> t, l |-> l, clauses |-> b]))
               /\ l' = Len(Tr.ev) + 100
=============================================================================
