----------------------------- MODULE HVArchive -----------------------------
(* A hypervolume calculator fed one point at a time: the state is the list of *)
(* points handed in so far, in order (with repetitions), and the value the    *)
(* calculator must report.  Every reachable state is exported as a vector and *)
(* replayed into the implementation.                                          *)
EXTENDS Hypervolume, Json

CONSTANTS Lo, Hi, Dim, Refs, MaxLen, Flat, EmitVec   \* the first Flat objectives take two levels only

(* reference points used by the bounded models (selected in the cfg) *)
Refs2 == {<<3, 3>>, <<2, 4>>, <<1, 1>>}
Refs2Big == {<<3, 3>>, <<2, 4>>, <<1, 1>>, <<4, 2>>, <<0, 3>>}
Refs3 == {<<2, 2, 2>>}
Refs3Big == {<<2, 2, 2>>, <<2, 1, 3>>}
Refs4 == {<<1, 2, 2, 1>>}
Refs4Deep == {<<2, 2, 2, 3>>}
Refs5 == {<<2, 2, 2, 2, 2>>}

VARIABLES pts, ref, hv
vars == <<pts, ref, hv>>

Points == {p \in [1..Dim -> Lo..Hi] : \A k \in 1..Flat : p[k] <= Lo + 1}

Init == pts = <<>> /\ ref \in Refs /\ hv = 0

Insert(p) ==
  /\ Len(pts) < MaxLen
  /\ pts' = Append(pts, p)
  /\ hv' = hv + (Vol(Range0(pts) \cup {p}, ref, Dim) - Vol(Range0(pts), ref, Dim))
  /\ UNCHANGED ref

Next == \E p \in Points : Insert(p)
Spec == Init /\ [][Next]_vars

(* ---- properties of the specification itself --------------------------- *)
MeasureIsCellCount == hv = HVCells(pts, ref, Lo)
OutsideIsWorthless == (\A i \in 1..Len(pts) : \E k \in 1..Dim : pts[i][k] >= ref[k]) => hv = 0
OnlyFrontCounts == hv = Vol({pts[i] : i \in FrontOf(pts, 1..Len(pts))}, ref, Dim)
Monotone == [][hv' >= hv]_vars
DominatedAddsNothing ==
  [][(\E i \in 1..Len(pts) : WeakDom(pts[i], pts'[Len(pts')])) => hv' = hv]_vars

Emit == EmitVec => PrintT("@VEC " \o ToJson([p |-> pts, r |-> ref, v |-> hv]))
=============================================================================
