------------------------------ MODULE KKTModel ------------------------------
(* A first-order test case is assembled step by step: objective gradients,      *)
(* then an equality gradient, then active inequality gradients.  For every      *)
(* assembled case the dual (direction) criterion must agree with the existence  *)
(* of multipliers.  All cases are exported.                                     *)
EXTENDS KKT, Json
CONSTANTS Dim, Hi, MaxObj, MaxEq, MaxIeq
VARIABLES g, h, a
vars == <<g, h, a>>
Vecs == [1..Dim -> (-Hi)..Hi]
Init == g = <<>> /\ h = <<>> /\ a = <<>>
AddObj(v) == Len(g) < MaxObj /\ h = <<>> /\ a = <<>> /\ g' = Append(g, v) /\ UNCHANGED <<h, a>>
AddEq(v) == g # <<>> /\ a = <<>> /\ Len(h) < MaxEq /\ h' = Append(h, v) /\ UNCHANGED <<g, a>>
AddIeq(v) == g # <<>> /\ Len(a) < MaxIeq /\ a' = Append(a, v) /\ UNCHANGED <<g, h>>
Next == \E v \in Vecs : AddObj(v) \/ AddEq(v) \/ AddIeq(v)
Spec == Init /\ [][Next]_vars

Full == g # <<>>
Exact0 == StationaryWithin(Dim, g, h, a, 0, 1)
(* multipliers found by search: weights sum to K *)
Weights(K) == {w \in [1..Len(g) -> 0..K] : SumRange(Len(g), LAMBDA i : w[i]) = K}
Combine(w, m, s) == [q \in 1..Dim |-> SumRange(Len(g), LAMBDA i : w[i] * g[i][q])
        + SumRange(Len(h), LAMBDA j : m[j] * h[j][q]) + SumRange(Len(a), LAMBDA k : s[k] * a[k][q])]
Witness(K, r) == \E w \in Weights(K), m \in [1..Len(h) -> (-3 * K)..(3 * K)], s \in [1..Len(a) -> 0..(3 * K)] :
   \A q \in 1..Dim : Abs(Combine(w, m, s)[q]) <= r
(* soundness of the dual test, and completeness for gradients this small *)
DualIsPrimal == Full => (Exact0 <=> \E K \in 1..4 : Witness(K, 0))
(* a looser tolerance never rejects what a tighter one accepts, and more multipliers never hurt *)
Looser == Full => (StationaryWithin(Dim, g, h, a, 1, 2) => StationaryWithin(Dim, g, h, a, 1, 1))
MoreMultipliers == [][(Full /\ Len(g') = Len(g) /\ StationaryWithin(Dim, g, h, a, 0, 1)) => StationaryWithin(Dim, g', h', a', 0, 1)]_vars
Emit == Full => PrintT("@VEC " \o ToJson([g |-> g, h |-> h, a |-> a, k0 |-> Exact0,
             half |-> StationaryWithin(Dim, g, h, a, 1, 2)]))
=============================================================================
