------------------------------ MODULE HVNewton ------------------------------
(* One iteration of the hypervolume Newton method on a population: dropping   *)
(* coinciding points, layers, the Newton system of a layer, the line search.  *)
EXTENDS NewtonSys, Dominance

(* ---- population level ---------------------------------------------------- *)
(* positions kept when coinciding points are reduced to their first copy *)
Keep(X) == SelectIdx(Len(X), LAMBDA i : \A j \in 1..i - 1 : X[j] # X[i])
(* partition of the positions into layers *)
Parts(Y, feas) ==
  LET F == {i \in 1..Len(Y) : feas[i]} IN
  IF F = {} THEN {1..Len(Y)}
  ELSE LET L == LayersOf(Y, F) IN
       {L[1] \cup ((1..Len(Y)) \ F)} \cup {L[k] : k \in 2..Len(L)}

(* ---- the system of one layer; P = sequence of points of the layer --------- *)
LY(pb, P) == [i \in 1..Len(P) |-> FixF(pb.F, P[i].x)]
LG(Y, ref) == [i \in 1..Len(Y) |-> [k \in 1..Len(ref) |-> FGrad(Y, ref, i, k)]]
LResidual(pb, P, ref) ==
  LET Y == LY(pb, P) G == LG(Y, ref) IN [i \in 1..Len(P) |-> Residual(PointData(pb, P[i]), G[i])]
(* D = displacement of every point *)
LSys(pb, P, ref, D) ==
  LET Y == LY(pb, P) G == LG(Y, ref) m == Len(ref)
      pd == [i \in 1..Len(P) |-> PointData(pb, P[i])]
      u == [i \in 1..Len(P) |-> FMatVec(pd[i].J, D[i].p)]
      w(i) == [k \in 1..m |-> Sat(SumRange(Len(P), LAMBDA j : SumRange(m, LAMBDA l :
                  IF k = l THEN 0 ELSE HessMul(ref, IF j = i \/ Y[j][k] < Y[i][k] THEN FHess(Y, ref, i, k, j, l) ELSE 0, u[j][l]))))]
  IN [i \in 1..Len(P) |-> SysRows(pb, pd[i], G[i], w(i), D[i], TRUE)]
=============================================================================
