---------------------------- MODULE ProblemModel ----------------------------
(* (1) The stencil oracle on cubics with a kink or a jump: a true (one-sided)   *)
(*     derivative is always accepted; on smooth data every other value farther  *)
(*     away than the margin is rejected.                                        *)
(* (2) Problem configurations, with exact identities; each is emitted and       *)
(*     replayed as a user-defined problem into the code.                        *)
EXTENDS Problem, Json
CONSTANTS MaxN, MaxM, Coef, Emitting
VARIABLES kind, c
vars == <<kind, c>>
H == 6
Init == kind = "go" /\ c = <<>>
Next ==
  \/ /\ kind = "go" /\ kind' = "stencil"
     /\ \E a, b, d \in -Coef..Coef, s \in -3..3, at \in 0..13, jump \in -2..2, spot \in {0, 1, -2} :
          c' = [a |-> a, b |-> b, d |-> d, s |-> IF jump = 0 THEN s ELSE 0, at |-> at, jump |-> jump, spot |-> IF jump = 0 THEN 0 ELSE spot]
  \/ /\ kind = "go" /\ kind' = "config"
     /\ \E n \in 1..MaxN, m \in 1..MaxM, ne \in 0..2, ni \in 0..2, bd \in BOOLEAN, cm \in BOOLEAN, s \in 0..1 :
          /\ (~cm => ne = 0 /\ ni = 0 /\ ~bd)
          /\ c' = [n |-> n, m |-> m, ne |-> ne, ni |-> ni, bound |-> bd, cmop |-> cm, s |-> s,
                   obj |-> Data(n, m, s), eq |-> Data(n, ne, s + 3), ieq |-> Data(n, ni, s + 6),
                   lo |-> [i \in 1..n |-> -i], hi |-> [i \in 1..n |-> 2 * i + s]]
Spec == Init /\ [][Next]_vars

(* values times H, so that the difference quotients are integers *)
Kink(x) == IF x > c.at THEN c.s * (x - c.at) + c.jump ELSE IF x = 0 /\ c.at = 0 THEN c.spot ELSE 0
F(x) == H * (c.a * x * x * x + c.b * x * x + c.d * x + Kink(x))
DP == (F(H) - F(0)) \div H
DM == (F(-H) - F(0)) \div H
DP2 == (F(2 * H) - F(0)) \div H
DM2 == (F(-2 * H) - F(0)) \div H
St == kind = "stencil"
(* a jump at 0 leaves any value at 0 (spot); the derivative at 0 (both one-sided ones when the kink sits at 0), times H *)
True_ == IF c.at = 0 THEN {H * c.d, H * (c.d + c.s)} ELSE {H * c.d}
AcceptsTrue == St => \A j \in True_ : IsDerivative(j, DP, DM, DP2, DM2, 0)
NoKink == c.s = 0 /\ c.jump = 0
ExactOnCubics == St => (NoKink => Est12(DP, DM, DP2, DM2) = 12 * H * c.d)
RejectsOther == St => (NoKink => \A e \in {-1, 1} :
   ~IsDerivative(H * c.d + e * (1 + Margin12(DP, DM, DP2, DM2) \div 12), DP, DM, DP2, DM2, 0))

(* away from kinks and jumps only strong curvature makes a stencil rough; a kink at the point always does *)
RoughIfKink == St => (c.a = 0 /\ c.b = 0 /\ c.at = 0 /\ c.jump = 0 /\ 2 * Abs(c.s) >= Mx(Abs(c.d), Abs(c.d + c.s)) /\ c.s # 0 => Rough(DP, DM, DP2, DM2, 0))
SmoothIfLinear == St => (c.a = 0 /\ c.b = 0 /\ NoKink => ~Rough(DP, DM, DP2, DM2, 0))

Cf2 == kind = "config"
Pts == IF c.n = 1 THEN {<<0>>, <<2>>, <<-3>>} ELSE {[i \in 1..c.n |-> 0], [i \in 1..c.n |-> i - 2], [i \in 1..c.n |-> 3 - 2 * i]}
G(x) == IeqF(c.ieq, x, c.lo, c.hi, c.bound)
Counts == Cf2 => \A x \in Pts : /\ Len(G(x)) = IeqCount(c.ni, c.n, c.bound) /\ Len(IeqJ(c.ieq, x, c.bound)) = Len(G(x))
                                /\ Len(IeqT(c.ieq, x, c.bound)) = Len(G(x)) /\ Len(QF(c.obj, x)) = c.m /\ Len(QF(c.eq, x)) = c.ne
NativeFirst == Cf2 => \A x \in Pts : SubSeq(G(x), 1, c.ni) = QF(c.ieq, x)
SlackSigns == Cf2 => (c.bound => \A x \in Pts :
   (\A k \in c.ni + 1..Len(G(x)) : G(x)[k] <= 0) <=> (\A i \in 1..c.n : c.lo[i] <= x[i] /\ x[i] <= c.hi[i]))
Shift(x, i, d) == [x EXCEPT ![i] = @ + d]
FirstDifferences == Cf2 => \A x \in Pts, i \in 1..c.n :
   /\ VSub(QF(c.obj, Shift(x, i, 1)), QF(c.obj, Shift(x, i, -1))) = [k \in 1..c.m |-> 2 * QJ(c.obj, x)[k][i]]
   /\ VSub(G(Shift(x, i, 1)), G(Shift(x, i, -1))) = [k \in 1..Len(G(x)) |-> 2 * IeqJ(c.ieq, x, c.bound)[k][i]]
SecondDifferences == Cf2 => \A x \in Pts, i, j \in 1..c.n : \A k \in 1..Len(G(x)) :
   IeqJ(c.ieq, Shift(x, j, 1), c.bound)[k][i] - IeqJ(c.ieq, x, c.bound)[k][i] = IeqT(c.ieq, x, c.bound)[k][i][j]
Symmetric == Cf2 => \A x \in Pts : \A k \in 1..c.m : QT(c.obj, x)[k] = Transpose(QT(c.obj, x)[k])
Emit == Emitting => (Cf2 => PrintT("@CONF " \o ToJson(c)))
=============================================================================
