--------------------------------- MODULE MMD ---------------------------------
(* Maximum mean discrepancy for kernels k(x, y) = f(s), s = |x - y|^2 (for     *)
(* "lap": s = |x - y|_1), as integer sums with denominator KDen(k).            *)
(*   poly: f = 1 - a s/64 + b s^2/64                                           *)
(*   rbf : f = exp(-(a ln 2) s) = 2^(-a s);  f' in units of ln 2, f'' in ln^2 2 *)
(*   rq  : f = a / (a + s)  (rational quadratic, alpha = 1, theta = 2 / a)      *)
EXTENDS Num

KDen(k) == CASE k.kind = "poly" -> 64 [] k.kind = "rq" -> 1000000 [] OTHER -> 4194304
Rnd(a, d) == (2 * a + d) \div (2 * d)
Dyad(e) == IF e > 22 THEN 0 ELSE 2 ^ (22 - e)
K0(k, s) == CASE k.kind = "poly" -> 64 - k.a * s + k.b * s * s
              [] k.kind = "rq" -> Rnd(1000000 * k.a, k.a + s)
              [] OTHER -> Dyad(k.a * s)
K1(k, s) == CASE k.kind = "poly" -> 2 * k.b * s - k.a
              [] k.kind = "rq" -> -Rnd(1000000 * k.a, (k.a + s) * (k.a + s))
              [] OTHER -> -(k.a * Dyad(k.a * s))
K2(k, s) == CASE k.kind = "poly" -> 2 * k.b
              [] k.kind = "rq" -> Rnd(2000000 * k.a, (k.a + s) * (k.a + s) * (k.a + s))
              [] OTHER -> k.a * k.a * Dyad(k.a * s)
L1(u, v) == SumRange(Len(u), LAMBDA i : Abs(u[i] - v[i]))
KSep(k, x, y) == IF k.kind = "lap" THEN L1(x, y) ELSE Dist2(x, y)
Ker(k, x, y) == K0(k, KSep(k, x, y))

(* sums of kernel values *)
SumK(k, A, B) == SumRange(Len(A), LAMBDA i : SumRange(Len(B), LAMBDA j : Ker(k, A[i], B[j])))
SumMatched(k, Y, T) == SumRange(Len(Y), LAMBDA i : Ker(k, Y[i], T[i]))

(* derivative of k in its first argument: 2 f' (x - y) *)
DK(k, x, y) == LET f == K1(k, Dist2(x, y)) IN [a \in 1..Len(x) |-> 2 * f * (x[a] - y[a])]
(* second derivative in the first argument, split by the order of f: 2 f' I and 4 f'' d d' *)
DK1(k, x, y, a, b) == IF a = b THEN 2 * K1(k, Dist2(x, y)) ELSE 0
DK2(k, x, y, a, b) == 4 * K2(k, Dist2(x, y)) * (x[a] - y[a]) * (x[b] - y[b])

(* first-argument gradient sums of point i: against the other points, against a set *)
GOthers(k, Y, i) == LET O == [j \in 1..Len(Y) |-> IF j = i THEN [a \in 1..Len(Y[i]) |-> 0] ELSE DK(k, Y[i], Y[j])]
                    IN SumVecs(O, Len(Y[i]))
GSet(k, y, R) == SumVecs([j \in 1..Len(R) |-> DK(k, y, R[j])], Len(y))
HOthers(k, Y, i, a, b, o) == SumRange(Len(Y), LAMBDA j : IF j = i THEN 0
                              ELSE IF o = 1 THEN DK1(k, Y[i], Y[j], a, b) ELSE DK2(k, Y[i], Y[j], a, b))
HSet(k, y, R, a, b, o) == SumRange(Len(R), LAMBDA j : IF o = 1 THEN DK1(k, y, R[j], a, b) ELSE DK2(k, y, R[j], a, b))
HCross(k, x, y, a, b, o) == IF o = 1 THEN -DK1(k, x, y, a, b) ELSE -DK2(k, x, y, a, b)
==============================================================================
