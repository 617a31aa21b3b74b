------------------------------ MODULE Helpers ------------------------------
(* Reflection into a box, bound expansion, packing of active variables, Hessian  *)
(* preconditioning and the default shift direction.                              *)
EXTENDS Num

(* ---- reflection: integers of one unit; Inf marks a missing bound ---- *)
Inf == 1000000000
Finite(a) == Abs(a) < Inf
FoldOne(x, lo, hi) == IF ~Finite(lo) \/ ~Finite(hi) THEN x
                      ELSE IF lo = hi THEN lo
                      ELSE LET w == hi - lo r == (x - lo) % (2 * w) IN lo + Mn(r, 2 * w - r)
FoldPoint(x, lo, hi) == [i \in 1..Len(x) |-> FoldOne(x[i], lo[i], hi[i])]
InBox(x, lo, hi) == \A i \in 1..Len(x) : (Finite(lo[i]) /\ Finite(hi[i])) => lo[i] <= x[i] /\ x[i] <= hi[i]

(* ---- bounds: a sequence of values, or one value for all ---- *)
Expand(b, dim) == IF Len(b) = 1 THEN [i \in 1..dim |-> b[1]] ELSE b

(* ---- packing: X rows, dp primal columns, A[i] the active dual columns (booleans) ---- *)
DualsOf(row, dp, a) == SelectSeq([k \in 1..Len(a) |-> IF a[k] THEN <<row[dp + k]>> ELSE <<>>], LAMBDA z : z # <<>>)
Pack(X, dp, A) == FlattenSeq([i \in 1..Len(X) |-> SubSeq(X[i], 1, dp)])
                  \o FlattenSeq(FlattenSeq([i \in 1..Len(X) |-> DualsOf(X[i], dp, A[i])]))
NumTrue(a, k) == Cardinality({q \in 1..k : a[q]})
Unpack(v, n, dp, A) ==
  LET before(i) == SumRange(i - 1, LAMBDA q : NumTrue(A[q], Len(A[q])))
  IN [i \in 1..n |-> [c \in 1..dp + Len(A[1]) |->
       IF c <= dp THEN v[(i - 1) * dp + c]
       ELSE IF A[i][c - dp] THEN v[n * dp + before(i) + NumTrue(A[i], c - dp)] ELSE 0]]
Masked(X, dp, A) == [i \in 1..Len(X) |-> [c \in 1..Len(X[i]) |-> IF c <= dp \/ A[i][c - dp] THEN X[i][c] ELSE 0]]

(* ---- positive definiteness of symmetric integer matrices (blocks of at most three) ---- *)
Minor2(H, a, b) == H[a][a] * H[b][b] - H[a][b] * H[a][b]
Det3(H, a, b, c) == H[a][a] * Minor2(H, b, c) - H[a][b] * (H[a][b] * H[c][c] - H[b][c] * H[a][c]) + H[a][c] * (H[a][b] * H[b][c] - H[b][b] * H[a][c])
RECURSIVE Linked(_, _)
Linked(H, B) == LET C == B \cup {j \in 1..Len(H) : \E i \in B : H[i][j] # 0} IN IF C = B THEN B ELSE Linked(H, C)
BlockPD(H, b) == LET n == Len(b) IN
   /\ H[b[1]][b[1]] > 0
   /\ n >= 2 => Minor2(H, b[1], b[2]) > 0
   /\ n >= 3 => Det3(H, b[1], b[2], b[3]) > 0
PD(H) == \A i \in 1..Len(H) : BlockPD(H, SetToSortSeq(Linked(H, {i}), <))
(* positive definite after adding s / q times the identity *)
PDShift(H, s, q) == PD([i \in 1..Len(H) |-> [j \in 1..Len(H) |-> q * H[i][j] + (IF i = j THEN s ELSE 0)]])
MinDiag(H) == Min({H[i][i] : i \in 1..Len(H)})

(* ---- the default shift direction of a set of points Y ---- *)
ArgMins(Y, k) == {i \in 1..Len(Y) : \A j \in 1..Len(Y) : Y[i][k] <= Y[j][k]}
Normal(Z) == IF Len(Z) = 2 THEN <<Z[2][2] - Z[1][2], Z[1][1] - Z[2][1]>>
             ELSE LET a == VSub(Z[2], Z[1]) b == VSub(Z[3], Z[1])
                  IN <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
(* n in 1/10000 *)
AlongNormal(n, N) == LET R == ISqrt(10000 * Dot(N, N)) IN \A i \in 1..Len(n) : Abs(-n[i] * R - 1000000 * Abs(N[i])) <= 20000 + 2 * R
UnitNonPositive(n) == (\A i \in 1..Len(n) : n[i] <= 0) /\ Abs(Dot(n, n) - 100000000) <= 60000
DirectionOk(n, Y) ==
  LET m == Len(Y[1]) E == {f \in [1..m -> 1..Len(Y)] : \A k \in 1..m : f[k] \in ArgMins(Y, k)}
  IN /\ Len(n) = m /\ UnitNonPositive(n)
     /\ \E f \in E : LET N == Normal([k \in 1..m |-> Y[f[k]]]) IN Dot(N, N) = 0 \/ AlongNormal(n, N)
=============================================================================
