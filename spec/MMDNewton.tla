------------------------------ MODULE MMDNewton ------------------------------
(* One iteration of the MMD Newton method: the discrepancy of a population, its  *)
(* joint Newton system and the shift of reached targets.  Fixed point of module   *)
(* Fix.  k = [kind, a, b] is the kernel as a function of s = |x - y|^2:            *)
(*   poly 1 - a s/64 + b s^2/64;  rq a/(a + s);  rbf 2^(-a s/4)                     *)
(* c = [match, bn, sc]: matched variant with weight bn/4, or the plain discrepancy.    *)
EXTENDS DPNewton

RDiv(a, b) == (2 * a + b) \div (2 * b)
Sq(s) == IF s > 3000000 THEN Top ELSE FMul(s, s)
(* ---- six-decimal numbers of modulus at most one ---- *)
Mio == 1000000
Mul6(a, b) ==
  LET ah == a \div 1000 al == a % 1000 bh == b \div 1000 bl == b % 1000
  IN ah * bh + ((ah * bl + al * bh) * 1000 + al * bl + 500000) \div 1000000
(* exp(-u), 0 <= u < 1, Horner *)
Exp6(u) == LET h(v, n) == Mio - RDiv(Mul6(u, v), n) IN h(h(h(h(h(h(h(h(Mio, 8), 7), 6), 5), 4), 3), 2), 1)
(* 2^(-a s / 4), s with four decimals *)
Exp2(a, s) == LET w == a * s \* quarters
                  n == w \div (4 * S) IN IF n > 20 THEN 0 ELSE RDiv(Exp6(Mul6(25 * (w % (4 * S)), 693147)), 2 ^ n)
Rq6(a, s) == FDec(0, a * S, a * S + s, 6)
(* theta = LnW / U *)
LnW(k) == RDiv(693147 * k.a, 4)
Theta(k, x) == FMul(LnW(k) \div 100, x) + RDiv((LnW(k) % 100) * (x \div 10), 100000)
KV(k, s) == CASE k.kind = "poly" -> S - RDiv(k.a * s, 64) + RDiv(k.b * Sq(s), 64)
              [] k.kind = "rq" -> RDiv(Rq6(k.a, s), 100)
              [] OTHER -> IF s > 2000000 THEN 0 ELSE RDiv(Exp2(k.a, s), 100)
(* first and second derivative in s, in units of 1 / (S * sc), sc in {1, 10, 100} *)
KV1(k, s, sc) == CASE k.kind = "poly" -> RDiv(sc * (2 * k.b * s - k.a * S), 64)
               [] k.kind = "rq" -> LET q == Rq6(k.a, s) IN -RDiv(Mul6(q, q), k.a * (100 \div sc))
               [] OTHER -> IF s > 2000000 THEN 0 ELSE -Theta(k, RDiv(Exp2(k.a, s), 100 \div sc))
KV2(k, s, sc) == CASE k.kind = "poly" -> RDiv(2 * k.b * S * sc, 64)
               [] k.kind = "rq" -> LET q == Rq6(k.a, s) IN RDiv(2 * Mul6(q, Mul6(q, q)), k.a * k.a * (100 \div sc))
               [] OTHER -> IF s > 2000000 THEN 0 ELSE Theta(k, Theta(k, RDiv(Exp2(k.a, s), 100 \div sc)))

(* ---- value; T = the targets, point i of the matched variant belongs to T[p[i]] ---- *)
Mean(k, A, B) == RDiv(SumRange(Len(A), LAMBDA i : SumRange(Len(B), LAMBDA j : KV(k, FDist2(A[i], B[j])))), Len(A) * Len(B))
MValue(c, k, Y, T, p) ==
  IF c.match THEN RDiv(c.bn * Mean(k, Y, Y), 4) + 2 * S - RDiv(2 * SumRange(Len(Y), LAMBDA i : KV(k, FDist2(Y[i], T[p[i]]))), Len(Y))
  ELSE Mean(k, T, T) + Mean(k, Y, Y) - 2 * Mean(k, T, Y)

(* ---- derivatives in objective space, all multiplied by c.sc N^2 / 2, N = Len(Y) ---- *)
DKF(k, sc, x, y) == LET d == VSub(x, y) f == 2 * KV1(k, FDist2(x, y), sc) IN [a \in 1..Len(x) |-> FMul(f, d[a])]
(* (second derivative of the kernel in its first argument) applied to v *)
(* 4 k'' (d v) d, small factors first so that tails keep their digits *)
Bend(k, sc, s, d, v) ==
  IF k.kind = "rq"
  THEN LET q == Rq6(k.a, s)
           f == FMul(RDiv(8 * q, k.a * k.a * (100 \div sc)), RDiv(FDot([a \in 1..Len(d) |-> RDiv(FMul(q, d[a]), 10)], v), 10))   \* 8 q (q d v) / a^2
       IN [a \in 1..Len(d) |-> FMul(f, RDiv(FMul(q, d[a]), 100))]
  ELSE LET dv == FDot(d, v)
           g == IF k.kind = "rbf" /\ s <= 2000000 THEN FMul(Exp2(k.a, s), dv) ELSE Top
           f == IF Abs(g) < Top \div 8 THEN RDiv(4 * Theta(k, Theta(k, g)), 100 \div sc)
                ELSE FMul(4 * KV2(k, s, sc), dv)
       IN [a \in 1..Len(d) |-> FMul(f, d[a])]
D2K(k, sc, x, y, v) == LET d == VSub(x, y) s == FDist2(x, y) f1 == 2 * KV1(k, s, sc) b == Bend(k, sc, s, d, v) IN
  [a \in 1..Len(x) |-> FMul(f1, v[a]) + b[a]]
Own(c, Y, T, p, i) == IF c.match THEN <<T[p[i]]>> ELSE T
(* weights: inner terms, terms against the targets *)
WIn(c, v) == IF c.match THEN RDiv(c.bn * v, 4) ELSE v
WOut(c, Y, T, v) == IF c.match THEN Len(Y) * v ELSE RDiv(Len(Y) * v, Len(T))
MGrad(c, k, Y, T, p) ==
  [i \in 1..Len(Y) |->
     LET A == SumVecs([j \in 1..Len(Y) |-> IF j = i THEN [a \in 1..Len(Y[i]) |-> 0] ELSE DKF(k, c.sc, Y[i], Y[j])], Len(Y[i]))
         O == Own(c, Y, T, p, i)
         B == SumVecs([j \in 1..Len(O) |-> DKF(k, c.sc, Y[i], O[j])], Len(Y[i]))
     IN [a \in 1..Len(Y[i]) |-> Sat(WIn(c, A[a]) - WOut(c, Y, T, B[a]))]]
(* Hessian applied to the displacements U of the objectives *)
MHess(c, k, Y, T, p, U) ==
  [i \in 1..Len(Y) |->
     LET n == Len(Y[i])
         A == SumVecs([j \in 1..Len(Y) |-> IF j = i THEN [a \in 1..n |-> 0] ELSE D2K(k, c.sc, Y[i], Y[j], VSub(U[i], U[j]))], n)
         O == Own(c, Y, T, p, i)
         B == SumVecs([j \in 1..Len(O) |-> D2K(k, c.sc, Y[i], O[j], U[i])], n)
     IN [a \in 1..n |-> Sat(WIn(c, A[a]) - WOut(c, Y, T, B[a]))]]

(* ---- joint system; primal rows times sc N^2/2; curvature of constraints is not part of it ---- *)
NN(P) == Len(P) * Len(P)
Scl(c, P, v) == Sat(RDiv(NN(P) * c.sc * Sat(v), 2))
JY(pb, P) == [i \in 1..Len(P) |-> FixF(pb.F, P[i].x)]
(* the multipliers enter with the same factor *)
MResidual(pb, c, k, P, T, p) ==
  LET G == MGrad(c, k, JY(pb, P), T, p) IN
  [i \in 1..Len(P) |-> LET pd == PointData(pb, [P[i] EXCEPT !.lam = [q \in 1..Len(P[i].lam) |-> Scl(c, P, P[i].lam[q])]]) IN Residual(pd, G[i])]
MSys(pb, c, k, P, T, p, D) ==
  LET Y == JY(pb, P) G == MGrad(c, k, Y, T, p)
      pd == [i \in 1..Len(P) |-> PointData(pb, P[i])]
      W == MHess(c, k, Y, T, p, [i \in 1..Len(P) |-> FMatVec(pd[i].J, D[i].p)])
  IN [i \in 1..Len(P) |-> SysRows(pb, pd[i], G[i], W[i], [p |-> D[i].p, l |-> [q \in 1..Len(D[i].l) |-> Scl(c, P, D[i].l[q])]], FALSE)]
(* the same with the dual rows on the common scale, for norms *)
MNorm(pb, c, k, P, T, p) ==
  LET R == MResidual(pb, c, k, P, T, p) IN
  Flatten([i \in 1..Len(P) |-> [a \in 1..Len(R[i]) |-> IF a <= Len(P[i].x) THEN R[i][a] ELSE Scl(c, P, R[i][a])]])
=============================================================================
