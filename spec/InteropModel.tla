---------------------------- MODULE InteropModel ----------------------------
(* (1) All histories of factory calls, imports and backend switches up to a     *)
(*     length, emitted and replayed in fresh processes.                         *)
(* (2) Configurations of user-defined pymoo problems, emitted and replayed.     *)
EXTENDS Interop, Json
CONSTANTS Depth, MaxN, MaxM, Emitting
VARIABLES kind, c
vars == <<kind, c>>
Start == [tb |-> "autograd.numpy", multi |-> Absent, many |-> Absent]
Acts == [a : {"get", "getbad", "blocked", "plain"}, f : Families, b : {""}] \cup {[a |-> "unsupported", f |-> "", b |-> ""]}
        \cup [a : {"activate"}, f : {""}, b : Backends]
Init == kind = "go" /\ c = <<>>
Next ==
  \/ kind = "go" /\ kind' = "hist" /\ c' = [s |-> Start, h |-> <<>>]
  \/ /\ kind = "hist" /\ Len(c.h) < Depth /\ UNCHANGED kind
     /\ \E x \in Acts : Enabled(c.s, x) /\ c' = [s |-> After(c.s, x), h |-> Append(c.h, x @@ [s |-> c.s])]
  \/ /\ kind = "go" /\ kind' = "config"
     /\ \E n \in 1..MaxN, m \in 1..MaxM, ne \in 0..2, ni \in 0..2, bd \in BOOLEAN, form \in {"array", "list", "return", "element", "elementlist"},
           bk \in {"scalar", "vector", "none"}, s \in 0..1 :
          /\ (form = "return" => ne = 0 /\ ni = 0) /\ (bk = "none" => ~bd)
          /\ c' = [n |-> n, m |-> m, ne |-> ne, ni |-> ni, bound |-> bd, form |-> form, bk |-> bk, s |-> s,
                   obj |-> Data(n, m, s), eq |-> Data(n, ne, s + 3), ieq |-> Data(n, ni, s + 6),
                   lo |-> [i \in 1..n |-> IF bk = "scalar" THEN -2 ELSE IF bk = "vector" THEN -i ELSE -1000000000],
                   hi |-> [i \in 1..n |-> IF bk = "scalar" THEN 3 ELSE IF bk = "vector" THEN 2 * i + s ELSE 1000000000]]
Spec == Init /\ [][Next]_vars

Hs == kind = "hist"
Fut(i) == IF i < Len(c.h) THEN c.h[i + 1].s ELSE c.s
Factory == {"get", "getbad", "blocked", "unsupported"}
BackendOnlyByUser == Hs => \A i \in 1..Len(c.h) : c.h[i].a \in Factory => Fut(i).tb = c.h[i].s.tb
LoadedNeverChanges == Hs => \A i \in 1..Len(c.h), f \in Families : c.h[i].s[f] # Absent => Fut(i)[f] = c.h[i].s[f]
NumpyModulesRefused == Hs => \A i \in 1..Len(c.h) : (c.h[i].a = "get" /\ c.h[i].s[c.h[i].f] \in {"numpy", "autograd.numpy"}) => ~Succeeds(c.h[i].s, c.h[i])
FailedOrJax == Hs => \A i \in 1..Len(c.h) : (c.h[i].a = "get" /\ Succeeds(c.h[i].s, c.h[i])) => Fut(i)[c.h[i].f] = Jax
SlackOnlyAppended == kind = "config" =>
   LET x == [i \in 1..c.n |-> i - 2] IN SubSeq(IeqF(c.ieq, x, c.lo, c.hi, c.bound), 1, c.ni) = QF(c.ieq, x)
EmitH == (Emitting /\ Hs) => (Len(c.h) = Depth => PrintT("@HIST " \o ToJson([i \in 1..Depth |-> [a |-> c.h[i].a, f |-> c.h[i].f, b |-> c.h[i].b]])))
EmitC == (Emitting /\ kind = "config") => PrintT("@CONF " \o ToJson(c))
=============================================================================
