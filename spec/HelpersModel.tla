---------------------------- MODULE HelpersModel ----------------------------
(* Small domains, exhaustively: folding, packing and definiteness.             *)
EXTENDS Helpers, Json
CONSTANTS MaxX, MaxB, Ent, Emitting
VARIABLES kind, c
vars == <<kind, c>>
Bounds == {<<a, b>> : a \in -MaxB..MaxB, b \in -MaxB..MaxB} 
OkBounds == {b \in Bounds : b[1] <= b[2]} \cup {<<-Inf, 1>>, <<0, Inf>>, <<-Inf, Inf>>}
Sym2(a, b, d) == <<<<a, b>>, <<b, d>>>>
Sym3(a, b, x, d, y, z) == <<<<a, b, x>>, <<b, d, y>>, <<x, y, z>>>>
Patterns(n, k) == [1..n -> [1..k -> BOOLEAN]]
Init == kind = "go" /\ c = <<>>
Next == /\ kind = "go"
        /\ \/ kind' = "fold" /\ \E x \in -MaxX..MaxX, b \in OkBounds : c' = [x |-> x, lo |-> b[1], hi |-> b[2]]
           \/ kind' = "pack" /\ \E n \in 1..2, dp \in 1..2, k \in 1..2 : \E A \in Patterns(n, k) : c' = [n |-> n, dp |-> dp, A |-> A]
           \/ kind' = "hess" /\ \E a, b, d \in -Ent..Ent : c' = [H |-> Sym2(a, b, d)]
           \/ kind' = "hess" /\ \E a, b, x, d, y, z \in -Mn(Ent, 2)..Mn(Ent, 2) : c' = [H |-> Sym3(a, b, x, d, y, z)]
Spec == Init /\ [][Next]_vars
F == FoldOne(c.x, c.lo, c.hi)
FoldInBox == kind = "fold" => InBox(<<F>>, <<c.lo>>, <<c.hi>>)
FoldFixes == kind = "fold" => (Finite(c.lo) /\ Finite(c.hi) /\ c.lo <= c.x /\ c.x <= c.hi => F = c.x)
FoldPeriodic == kind = "fold" => (Finite(c.lo) /\ Finite(c.hi) => FoldOne(c.x + 2 * (c.hi - c.lo), c.lo, c.hi) = F)
FoldSymmetric == kind = "fold" => (Finite(c.lo) /\ Finite(c.hi) => FoldOne(2 * c.lo - c.x, c.lo, c.hi) = F)
FoldLipschitz == kind = "fold" => Abs(FoldOne(c.x + 1, c.lo, c.hi) - F) <= 1
X0 == [i \in 1..c.n |-> [j \in 1..c.dp + Len(c.A[1]) |-> 10 * i + j]]
PackRoundTrip == kind = "pack" => Unpack(Pack(X0, c.dp, c.A), c.n, c.dp, c.A) = Masked(X0, c.dp, c.A)
PackLength == kind = "pack" => Len(Pack(X0, c.dp, c.A)) = c.n * c.dp + SumRange(c.n, LAMBDA i : NumTrue(c.A[i], Len(c.A[i])))
Quad(H, v) == Dot(v, MatVec(H, v))
PDMeansPositive == kind = "hess" => (PD(c.H) => \A v \in [1..Len(c.H) -> -2..2] : (\E i \in 1..Len(c.H) : v[i] # 0) => Quad(c.H, v) > 0)
ShiftMonotone == kind = "hess" => (PD(c.H) => PDShift(c.H, 1, 4))
LargeShiftEnough == kind = "hess" => PDShift(c.H, 20, 1)
Emit == Emitting => CASE kind = "fold" -> PrintT("@FOLD " \o ToJson(c)) [] kind = "pack" -> PrintT("@PACK " \o ToJson(c))
                      [] kind = "hess" -> PrintT("@HESS " \o ToJson(c)) [] OTHER -> TRUE
=============================================================================
