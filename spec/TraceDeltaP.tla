---------------------------- MODULE TraceDeltaP ----------------------------
(* Recorded lives of distance indicators sharing one reference set.           *)
(* Specified state: the current reference set (points and their components).  *)
(*  op "eval":  Y, vals = list of [kind, p2, v] with v = S*size*value^p        *)
(*  op "match": Y, T = targets reported afterwards, val = S*|Y|*value          *)
(*  op "shift": c (whole set)          op "replace": ref, comp                *)
EXTENDS DeltaP, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, ref, comp
vars == <<t, l, ref, comp>>
Tr == Traces[t]
Ev == Tr.ev[l]
S == 1000

Target(e, q) == IF q.kind = "gd" THEN GDSum(e.Y, ref, q.p2, S) ELSE IGDSum(e.Y, ref, q.p2, S)

Clauses(e) ==
  CASE e.op = "raised" -> [no_exception |-> FALSE]
    [] e.op = "eval" ->
         [gd_value |-> \A i \in 1..Len(e.vals) : e.vals[i].kind = "gd" => Close(e.vals[i].v, Target(e, e.vals[i]), GDErr(e.Y, ref, e.vals[i].p2)),
          igd_value |-> \A i \in 1..Len(e.vals) : e.vals[i].kind = "igd" => Close(e.vals[i].v, Target(e, e.vals[i]), IGDErr(e.Y, ref, e.vals[i].p2)),
          inputs_unmodified |-> e.unmod]
    [] e.op = "match" ->
         [targets_are_reference_points |-> \E f \in [1..Len(e.Y) -> 1..Len(ref)] :
             (\A i, j \in 1..Len(e.Y) : i # j => f[i] # f[j]) /\ \A i \in 1..Len(e.Y) : ref[f[i]] = e.T[i],
          matched_value |-> \A i \in 1..Len(e.vals) : Close(e.vals[i], MatchSum(e.Y, e.T) * S, 2),
          inputs_unmodified |-> e.unmod]
    [] e.op \in {"shift", "replace"} -> [ok |-> TRUE]

Init == t \in 1..Len(Traces) /\ l = 1 /\ ref = Tr.ref /\ comp = Tr.comp
Effect(e) ==
  CASE e.op = "shift" -> ref' = [j \in 1..Len(ref) |-> VAdd(ref[j], VScale(e.c, Tr.eta[comp[j]]))] /\ UNCHANGED comp
    [] e.op = "replace" -> ref' = e.ref /\ comp' = e.comp
    [] e.op = "match" -> ref' = e.T /\ comp' = [i \in 1..Len(e.T) |-> 1]
    [] OTHER -> UNCHANGED <<ref, comp>>

Next ==
  /\ l <= Len(Tr.ev) + 1
  /\ UNCHANGED t
  /\ IF l = Len(Tr.ev) + 1
     THEN PrintT("@DONE " \o ToJson([t |-> t])) /\ l' = l + 1 /\ UNCHANGED <<ref, comp>>
     ELSE LET b == Bad(Clauses(Ev)) IN
          IF b = {} THEN l' = l + 1 /\ Effect(Ev)
          ELSE /\ PrintT("@FAIL " \o ToJson([t |-> t, l |-> l, clauses |-> b]))
               /\ l' = Len(Tr.ev) + 100 /\ UNCHANGED <<ref, comp>>
=============================================================================
