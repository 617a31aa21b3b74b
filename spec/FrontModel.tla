----------------------------- MODULE FrontModel -----------------------------
(* (1) All small worlds: a set Y of attainable objective vectors on a grid and  *)
(*     a reported front R, both with rounding noise.  The true front is         *)
(*     accepted; what is accepted consists of non-dominated attainable vectors. *)
(* (2) All combinations of constructor arguments of a small table, emitted and  *)
(*     replayed into the code.                                                  *)
EXTENDS Front, Json
CONSTANTS GX, GY, RMax, Emitting
VARIABLES kind, c
vars == <<kind, c>>
Grid == (0..GX) \X (0..GY)
Kinds == {[kind |-> "int", v |-> 2], [kind |-> "int", v |-> 1], [kind |-> "int", v |-> 3], [kind |-> "int", v |-> 0], [kind |-> "int", v |-> -1],
          [kind |-> "npint", v |-> 2], [kind |-> "npint", v |-> 0], [kind |-> "bool", v |-> 1], [kind |-> "npbool", v |-> 1],
          [kind |-> "float", v |-> 2], [kind |-> "npfloat", v |-> 2], [kind |-> "str", v |-> 2], [kind |-> "none", v |-> 0]}
Plain == {[kind |-> "int", v |-> 2], [kind |-> "npint", v |-> 3], [kind |-> "int", v |-> 1]}
Bounds(lo) == {[form |-> "scalar", v |-> <<lo>>], [form |-> "seq", v |-> <<lo>>], [form |-> "seq", v |-> <<lo, 0>>], [form |-> "seq", v |-> <<0, lo>>],
               [form |-> "seq", v |-> <<lo, lo, lo>>], [form |-> "seq", v |-> <<lo, -lo, 0>>]}
Init == kind = "go" /\ c = <<>>
Next ==
  \/ /\ kind = "go" /\ kind' = "world"
     /\ \E Y \in SUBSET Grid : Y # {} /\ c' = [Y |-> Y, R |-> {}, noise |-> 0]
  \/ /\ kind = "world" /\ kind' = "report"
     /\ \E R \in UNION {kSubset(m, Grid) : m \in 0..RMax}, noise \in {0, 4} : c' = [c EXCEPT !.R = R, !.noise = noise]
  \/ /\ kind = "go" /\ kind' = "ctor"
     /\ \E v, m \in Kinds, lo \in Bounds(-2) \cup Bounds(0), hi \in Bounds(3) \cup Bounds(-2) :
          /\ (v \notin Plain => lo = [form |-> "scalar", v |-> <<-2>>] /\ hi = [form |-> "scalar", v |-> <<3>>] /\ (m \in Plain))
          /\ (m \notin Plain => lo = [form |-> "scalar", v |-> <<-2>>] /\ hi = [form |-> "scalar", v |-> <<3>>])
          /\ (m \in Plain /\ v \in Plain => m.v = 2)
          /\ c' = [nvar |-> v, nobj |-> m, lo |-> lo, hi |-> hi]
Spec == Init /\ [][Next]_vars

Nz(k) == IF (k[1] + k[2]) % 2 = 0 THEN c.noise ELSE -c.noise
Pt(g) == [k \in 1..2 |-> <<g[k] * Gap, Nz(g)>>]
Pt0(g) == [k \in 1..2 |-> <<g[k] * Gap, 0>>]
Sq(S, f(_)) == LET s == SetToSeq(S) IN [i \in 1..Len(s) |-> f(s[i])]
W == kind = "world"
Rp == kind = "report"
LessEq(g, h) == g[1] <= h[1] /\ g[2] <= h[2]
Best(S) == {g \in S : ~\E h \in S : h # g /\ LessEq(h, g)}
Ok(R) == /\ MutuallyNonDominated(Sq(R, Pt)) /\ NoneDominated(Sq(c.Y, Pt0), Sq(R, Pt)) /\ Covered(Sq(R, Pt), Sq(c.Y, Pt0), 1)
TrueFrontAccepted == W => Ok(Best(c.Y)) /\ Covers(Sq(Best(c.Y), Pt), Sq(c.Y, Pt0), 1)
(* nothing but the whole front is optimal and complete *)
OnlyWholeFront == Rp => (Ok(c.R) /\ Covers(Sq(c.R, Pt), Sq(c.Y, Pt0), 1) => c.R = Best(c.Y))
AcceptedIsOptimal == Rp => (Ok(c.R) => c.R \subseteq Best(c.Y))
PartsAccepted == Rp => (c.R \subseteq Best(c.Y) => Ok(c.R))
Strict == Rp => \A g, h \in c.R : (Dominates(Pt(g), Pt(h)) => ~Dominates(Pt(h), Pt(g))) /\ (Dominates(Pt(g), Pt(h)) <=> LessEq(g, h) /\ g # h)

Ct == kind = "ctor"
AcceptedBroadcast == Ct => (Accept(c) => /\ Len(Expand(c.lo, c.nvar.v)) = c.nvar.v /\ c.nvar.v >= 1 /\ c.nobj.v >= 1
                                         /\ \A i \in 1..c.nvar.v : Expand(c.lo, c.nvar.v)[i] <= Expand(c.hi, c.nvar.v)[i])
ScalarIsSingleton == Ct => (c.lo.form = "scalar" => (Accept(c) = Accept([c EXCEPT !.lo.form = "seq"])))
Emit == Emitting => (Ct => PrintT("@CONF " \o ToJson(c @@ [accept |-> Accept(c)])))
=============================================================================
