----------------------------- MODULE MMDFixModel -----------------------------
(* The fixed-point discrepancy of MMDNewton agrees with the exact sums of MMD on   *)
(* a lattice, and its derivatives are the differences of its values.                *)
EXTENDS MMDNewton, TLC
X == INSTANCE MMD
CONSTANTS NPts, NRef, Top1
VARIABLES Y, T, k, go
Pts == (0..Top1) \X (0..Top1)
Sorted(m) == \A i, j \in 1..Len(m) : i < j => Dot(m[i], <<9, 1>>) <= Dot(m[j], <<9, 1>>)
Kernels == {[kind |-> "poly", a |-> 5, b |-> 1], [kind |-> "rq", a |-> 2, b |-> 0], [kind |-> "rbf", a |-> 4, b |-> 0]}
Init == Y \in {y \in [1..NPts -> Pts] : Sorted(y)} /\ T \in {m \in [1..NRef -> Pts] : Sorted(m)} /\ k \in Kernels /\ go = FALSE
Next == go' = TRUE /\ UNCHANGED <<Y, T, k>>
Spec == Init /\ [][Next]_<<Y, T, k, go>>
Scale(A) == [i \in 1..Len(A) |-> [a \in 1..2 |-> A[i][a] * S]]
KX == [k EXCEPT !.a = IF k.kind = "rbf" THEN k.a \div 4 ELSE k.a]
Exact(v) == IF k.kind = "poly" THEN (v * S) \div 64 ELSE IF k.kind = "rq" THEN v \div 100 ELSE ((v \div 512) * S) \div 8192
FY == Scale(Y)
FT == Scale(T)
c0 == [match |-> FALSE, bn |-> 4, sc |-> 1]
c1 == [match |-> TRUE, bn |-> 1, sc |-> 1]
Id == [i \in 1..NPts |-> i]
KernelAgrees == go => \A i \in 1..NPts, j \in 1..NRef : Close(KV(k, FDist2(FY[i], FT[j])), Exact(X!Ker(KX, Y[i], T[j])), 4)
ValueIsMeanDistance == go => MValue(c0, k, FT, FT, Id) \in -9..9
DecreasingKernel == (go /\ k.kind # "poly") => \A s \in 0..8 : KV1(k, s * S, 100) <= 0
(* central differences of the value with step 1/4: third-order terms bounded by the tolerance *)
Shift(A, i, a, v) == [A EXCEPT ![i][a] = @ + v]
H == 2500
Slope(c, i, a) == (MValue(c, k, Shift(FY, i, a, H), FT, Id) - MValue(c, k, Shift(FY, i, a, -H), FT, Id)) * 2
GradientIsSlope == go =>
  \A c \in {c0} \cup (IF NRef >= NPts THEN {c1} ELSE {}) :
    LET G == MGrad(c, k, FY, FT, Id) IN
    \A i \in 1..NPts, a \in 1..2 : Abs(RDiv(2 * G[i][a], NPts * NPts) - Slope(c, i, a)) <= 500
HessianIsSlope == go =>
  \A c \in {c0} \cup (IF NRef >= NPts THEN {c1} ELSE {}) :
    \A j \in 1..NPts, b \in 1..2 :
      LET U == [i \in 1..NPts |-> [a \in 1..2 |-> IF i = j /\ a = b THEN S ELSE 0]]
          W == MHess(c, k, FY, FT, Id, U)
          Gp == MGrad(c, k, Shift(FY, j, b, H), FT, Id) Gm == MGrad(c, k, Shift(FY, j, b, -H), FT, Id)
      IN \A i \in 1..NPts, a \in 1..2 : Abs(W[i][a] - 2 * (Gp[i][a] - Gm[i][a])) <= 900 * NPts
ScalesAgree == go => \A i \in 1..NPts, j \in 1..NRef : LET s == FDist2(FY[i], FT[j]) IN
   Close(KV1(k, s, 1), RDiv(KV1(k, s, 100), 100), 1) /\ Close(KV2(k, s, 10), RDiv(KV2(k, s, 100), 10), 1)
=============================================================================
