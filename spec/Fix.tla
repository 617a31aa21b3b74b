-------------------------------- MODULE Fix --------------------------------
(* Fixed-point numbers with four decimals that never overflow TLC's integers:  *)
(* results saturate at +-Top.                                                 *)
EXTENDS Num
S == 10000
Top == 9900000
Sat(a) == IF a > Top THEN Top ELSE IF a < -Top THEN -Top ELSE a
FMul(a0, b0) ==
  LET a == Sat(a0) b == Sat(b0) IN
  IF a = 0 \/ b = 0 THEN 0
  ELSE LET ah == a \div 100 al == a % 100 bh == b \div 100 bl == b % 100 IN
       IF bh # 0 /\ Abs(ah) > 20000000 \div Abs(bh) THEN Sgn(a) * Sgn(b) * Top
       ELSE Sat(ah * bh + ((ah * bl + al * bh) * 100 + al * bl + 5000) \div 10000)
(* a / b, b > 0 *)
RECURSIVE FDec(_, _, _, _)
FDec(q, r, b, n) == IF n = 0 THEN q ELSE FDec(10 * q + (10 * r) \div b, (10 * r) % b, b, n - 1)
FDiv(a, b) == IF Abs(a) \div b > 900 THEN Sgn(a) * Top ELSE FDec(a \div b, a % b, b, 4)
FDot(u, v) == Sat(SumRange(Len(u), LAMBDA i : FMul(u[i], v[i])))
FMatVec(A, v) == [i \in 1..Len(A) |-> FDot(A[i], v)]
FVecMat(v, A) == [j \in 1..Len(A[1]) |-> Sat(SumRange(Len(v), LAMBDA i : FMul(v[i], A[i][j])))]

(* integer quadratic map q (see QuadMap) at a fixed-point argument: value, Jacobian, Hessians *)
FixF(q, x) == [k \in 1..Len(q.b) |-> Sat(FDot(x, MatVec(q.A[k], x)) + Dot(q.b[k], x) + q.c[k] * S)]
FixJ(q, x) == [k \in 1..Len(q.b) |-> [a \in 1..Len(x) |-> 2 * Dot(q.A[k][a], x) + q.b[k][a] * S]]
FixT(q, k, a, b) == 2 * q.A[k][a][b]                        \* an integer, not scaled

(* ---- hypervolume of fixed-point points (minimization) and its derivatives ---- *)
Drop(p, k) == [i \in 1..Len(p) - 1 |-> IF i < k THEN p[i] ELSE p[i + 1]]
RECURSIVE FVol(_, _)
FVol(P, ref) ==
  IF P = {} THEN 0
  ELSE LET d == Len(ref) IN
       IF d = 1 THEN Mx(0, ref[1] - Min({p[1] : p \in P}))
       ELSE LET V == {p[d] : p \in {q \in P : q[d] < ref[d]}}
                Above(v) == Min({w \in V \cup {ref[d]} : w > v})
            IN FoldSet(LAMBDA v, acc : acc + FMul(Above(v) - v, FVol({Drop(p, d) : p \in {q \in P : q[d] <= v}}, Drop(ref, d))), 0, V)
(* d FVol / d (point i, objective k); pts is a sequence with pairwise distinct coordinates *)
FGrad(pts, ref, i, k) ==
  LET d == Len(ref) IN
  IF pts[i][k] >= ref[k] THEN 0
  ELSE IF d = 1 THEN (IF \A j \in 1..Len(pts) : j = i \/ pts[j][1] > pts[i][1] THEN -1 ELSE 0)
  ELSE LET Q == {Drop(pts[j], k) : j \in {q \in 1..Len(pts) : q # i /\ pts[q][k] < pts[i][k]}} rk == Drop(ref, k)
       IN -(FVol(Q \cup {Drop(pts[i], k)}, rk) - FVol(Q, rk))
FHess(pts, ref, i, k, j, l) ==
  IF k = l \/ (j # i /\ pts[j][k] >= pts[i][k]) \/ pts[i][k] >= ref[k] THEN 0
  ELSE LET before == SelectSeq([q \in 1..Len(pts) |-> q], LAMBDA q : q # i /\ pts[q][k] < pts[i][k])
           Q == [q \in 1..Len(before) |-> Drop(pts[before[q]], k)]
           QP == Append(Q, Drop(pts[i], k))
           ll == IF l > k THEN l - 1 ELSE l
           rk == Drop(ref, k)
           pos == IF j = i THEN Len(QP) ELSE CHOOSE q \in 1..Len(before) : before[q] = j
       IN -(FGrad(QP, rk, pos, ll) - (IF j = i THEN 0 ELSE FGrad(Q, rk, pos, ll)))
(* scale of a mixed second derivative: lengths for three objectives, plain integers for two *)
HessMul(ref, h, v) == IF Len(ref) = 2 THEN h * v ELSE FMul(h, v)
=============================================================================
