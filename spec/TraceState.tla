----------------------------- MODULE TraceState -----------------------------
(* Recorded lives of optimizer states over an integer quadratic problem.       *)
(*  Tr: nvar, neq, nieq, f, h, g (quadratic maps; h, g in units of 1e-5),       *)
(*      hashess                                                                *)
(*  ev: op, s (state acted on, 1-based), k, idx, X, x ;                         *)
(*      obs: for every live state the full observation                          *)
(*        X, Y, J, c, act, cg, ch, feas, nj, nc, nh                             *)
(*  Specified state: the points (with duals) of every live state and its        *)
(*  evaluation counters; all caches are derived.                                *)
EXTENDS QuadMap, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, pts, cnt
vars == <<t, l, pts, cnt>>
Tr == Traces[t]
Ev == Tr.ev[l]

Prim(z) == SubSeq(z, 1, Tr.nvar)
Hv(z) == IF Tr.neq = 0 THEN <<>> ELSE QF(Tr.h, Prim(z))
Gv(z) == IF Tr.nieq = 0 THEN <<>> ELSE QF(Tr.g, Prim(z))
Cv(z) == Hv(z) \o Gv(z)
Act(z) == [i \in 1..(Tr.neq + Tr.nieq) |-> IF i <= Tr.neq THEN 1 ELSE IF Gv(z)[i - Tr.neq] >= -10 THEN 1 ELSE 0]
Feas(z) == (\A i \in 1..Tr.neq : Abs(Hv(z)[i]) <= 10) /\ (\A i \in 1..Tr.nieq : Gv(z)[i] < -10)
CG(z) == (IF Tr.neq = 0 THEN <<>> ELSE QJ(Tr.h, Prim(z))) \o (IF Tr.nieq = 0 THEN <<>> ELSE QJ(Tr.g, Prim(z)))
CH(z) == (IF Tr.neq = 0 THEN <<>> ELSE QT(Tr.h, Prim(z))) \o (IF Tr.nieq = 0 THEN <<>> ELSE QT(Tr.g, Prim(z)))
HasC == Tr.neq + Tr.nieq > 0

(* state after the event, for every live state *)
NextPts(e) ==
  CASE e.op \in {"create"} -> Append(pts, e.X)
    [] e.op = "update" -> [pts EXCEPT ![e.s] = e.X]
    [] e.op = "one" -> [pts EXCEPT ![e.s][e.k] = e.x]
    [] e.op \in {"slice", "copy", "reload"} -> Append(pts, [i \in 1..Len(e.idx) |-> pts[e.s][e.idx[i]]])
    [] OTHER -> pts
Bump1(c, n) == <<c[1] + n, IF HasC THEN c[2] + n ELSE c[2], IF HasC /\ Tr.hashess THEN c[3] + n ELSE c[3]>>
NextCnt(e) ==
  CASE e.op = "create" -> Append(cnt, Bump1(<<0, 0, 0>>, Len(e.X)))
    [] e.op = "update" -> [cnt EXCEPT ![e.s] = Bump1(@, Len(e.X))]
    [] e.op = "one" -> [cnt EXCEPT ![e.s] = Bump1(@, 1)]
    [] e.op \in {"slice", "copy", "reload"} -> Append(cnt, cnt[e.s])
    [] OTHER -> cnt

ForAllObs(e, P(_, _, _)) == LET np == NextPts(e) IN
   Len(e.obs) = Len(np) /\ \A s \in 1..Len(np) : Len(e.obs[s].X) = Len(np[s]) /\ \A i \in 1..Len(np[s]) : P(e.obs[s], np[s][i], i)

Clauses(e) ==
  IF e.op = "raised" THEN [no_exception |-> FALSE]
  ELSE
   [points |-> ForAllObs(e, LAMBDA o, z, i : CloseSeq(o.X[i], z, 0)),
    objectives |-> ForAllObs(e, LAMBDA o, z, i : CloseSeq(o.Y[i], QF(Tr.f, Prim(z)), 0)),
    jacobians |-> ForAllObs(e, LAMBDA o, z, i : CloseMat(o.J[i], QJ(Tr.f, Prim(z)), 0)),
    constraint_values |-> ForAllObs(e, LAMBDA o, z, i : CloseSeq(o.c[i], Cv(z), 0)),
    active_set |-> ForAllObs(e, LAMBDA o, z, i : o.act[i] = Act(z)),
    constraint_jacobians |-> HasC => ForAllObs(e, LAMBDA o, z, i : CloseMat(o.cg[i], CG(z), 0)),
    constraint_hessians |-> (HasC /\ Tr.hashess) => ForAllObs(e, LAMBDA o, z, i :
         Len(o.ch[i]) = Len(CH(z)) /\ \A q \in 1..Len(CH(z)) : CloseMat(o.ch[i][q], CH(z)[q], 0)),
    feasibility |-> ForAllObs(e, LAMBDA o, z, i : (o.feas[i] = 1) = Feas(z)),
    counters |-> LET nc == NextCnt(e) IN \A s \in 1..Len(nc) : <<e.obs[s].nj, e.obs[s].nc, e.obs[s].nh>> = nc[s] ]

Init == t \in 1..Len(Traces) /\ l = 1 /\ pts = <<>> /\ cnt = <<>>
Next ==
  /\ l <= Len(Tr.ev) + 1
  /\ UNCHANGED t
  /\ IF l = Len(Tr.ev) + 1
     THEN PrintT("@DONE " \o ToJson([t |-> t])) /\ l' = l + 1 /\ UNCHANGED <<pts, cnt>>
     ELSE LET b == Bad(Clauses(Ev)) IN
          IF b = {} THEN l' = l + 1 /\ pts' = NextPts(Ev) /\ cnt' = NextCnt(Ev)
          ELSE /\ PrintT("@FAIL " \o ToJson([t |-> t, l |-> l, clauses |-> b]))
               /\ l' = Len(Tr.ev) + 100 /\ UNCHANGED <<pts, cnt>>
=============================================================================
