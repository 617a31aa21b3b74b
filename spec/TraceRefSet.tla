----------------------------- MODULE TraceRefSet -----------------------------
(* Recorded lives of a reference set.  Coordinates are in units of 1/U.        *)
(*  Tr: comps, eta (per component, times 10^4, or <<>> for the default), part   *)
(*      (given clusters, 1-based, or <<>>), U                                   *)
(*  op "ref":   obs = concatenated reference set reported before any matching   *)
(*  op "match": Y, obs = targets reported                                       *)
(*  op "shift": c10 (step times 10^4), idx (1-based; <<>> = all), obs           *)
EXTENDS RefSet, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, comps, part, med, T, owner
vars == <<t, l, comps, part, med, T, owner>>
Tr == Traces[t]
Ev == Tr.ev[l]
Tol == 3

Dir(k) == IF Tr.eta # <<>> THEN Tr.eta[k] ELSE UnitDown(NormalOf(Tr.lattice[k]))
(* c * eta in units of 1/U: c10/1e4 * eta/1e4 * U, with U = 1000 *)
Delta(e, k) == [q \in 1..Len(Tr.comps[1][1]) |-> (((Dir(k)[q] * (e.c10 \div 10)) \div 1000) * Tr.U) \div 10000]
Flat(cs) == FlattenSeq(cs)
DeltaTol(e) == 4 + Tr.U \div 1000

ShiftComps(e) == [k \in 1..Len(comps) |-> [j \in 1..Len(comps[k]) |-> VAdd(comps[k][j], Delta(e, k))]]
Selected(e) == IF e.all THEN 1..Len(T) ELSE Range0(e.idx)
ShiftT(e) == [i \in 1..Len(T) |-> IF i \in Selected(e) THEN VAdd(T[i], Delta(e, owner[i])) ELSE T[i]]

(* the component map a matching may use *)
Pt(e) == NextPart(comps, part, e.Y)
Cls(e) == [j \in 1..Len(Pt(e)) |-> Pick(e.Y, Pt(e)[j])]
Obs(e, j) == Pick(e.obs, Pt(e)[j])
MapsOk(e) == {f \in OptMaps(comps, Cls(e), Tol) :
                \A j \in 1..Len(Pt(e)) : Len(Cls(e)[j]) <= Len(comps[f[j]])
                   /\ LegalChoice(Cls(e)[j], Obs(e, j), comps[f[j]], med[f[j]], Tol)}

Clauses(e) ==
  CASE e.op = "raised" -> [no_exception |-> FALSE]
    [] e.op = "ref" -> [reference_points |-> CloseMat(e.obs, Flat(comps), Tol)]
    [] e.op = "match" ->
        IF Len(e.obs) # Len(e.Y) THEN [one_target_each |-> FALSE]
        ELSE [one_target_each |-> TRUE,
              clusters_to_components |-> MapsOk(e) # {},
              least_total_distance |-> \A j \in 1..Len(Pt(e)) : Optimal(Cls(e)[j], Obs(e, j), Tol * (1 + Len(e.Y))),
              inputs_unmodified |-> e.unmod]
    [] e.op = "shift" ->
        IF T = <<>> THEN [shift_of_whole_set |-> LET x == Flat(ShiftComps(e)) IN CloseMat(e.obs, x, DeltaTol(e))]
        ELSE [shift_of_targets |-> LET x == ShiftT(e) IN Len(e.obs) = Len(T) /\
                 \A i \in 1..Len(T) : CloseSeq(e.obs[i], x[i], IF i \in Selected(e) THEN DeltaTol(e) ELSE 0)]

Init == t \in 1..Len(Traces) /\ l = 1 /\ comps = Tr.comps /\ part = Tr.part
        /\ med = [k \in 1..Len(Tr.comps) |-> <<>>] /\ T = <<>> /\ owner = <<>>
Cut(seq, sizes, k) == LET lo == SumRange(k - 1, LAMBDA q : sizes[q]) IN SubSeq(seq, lo + 1, lo + sizes[k])
Effect(e) ==
  CASE e.op = "match" -> \E f \in MapsOk(e) :
         LET pt == Pt(e) IN
         /\ part' = pt /\ T' = e.obs /\ UNCHANGED comps
         /\ med' = [k \in 1..Len(comps) |-> IF \E j \in 1..Len(pt) : f[j] = k
                      THEN Obs(e, CHOOSE j \in 1..Len(pt) : f[j] = k) ELSE med[k]]
         /\ owner' = [i \in 1..Len(e.Y) |-> f[CHOOSE j \in 1..Len(pt) : i \in Range0(pt[j])]]
    [] e.op = "shift" ->
         IF T = <<>> THEN
            /\ LET sz == [k \in 1..Len(comps) |-> Len(comps[k])] IN comps' = [k \in 1..Len(comps) |-> Cut(e.obs, sz, k)]
            /\ UNCHANGED <<part, med, T, owner>>
         ELSE /\ T' = e.obs
              /\ med' = [k \in 1..Len(comps) |->
                   IF \E i \in 1..Len(T) : owner[i] = k
                   THEN LET J == SelectIdx(Len(T), LAMBDA i : owner[i] = k) IN Pick(e.obs, J) ELSE med[k]]
              /\ UNCHANGED <<comps, part, owner>>
    [] OTHER -> UNCHANGED <<comps, part, med, T, owner>>

Next ==
  /\ l <= Len(Tr.ev) + 1
  /\ UNCHANGED t
  /\ IF l = Len(Tr.ev) + 1
     THEN PrintT("@DONE " \o ToJson([t |-> t])) /\ l' = l + 1 /\ UNCHANGED <<comps, part, med, T, owner>>
     ELSE LET b == Bad(Clauses(Ev)) IN
          IF b = {} THEN l' = l + 1 /\ Effect(Ev)
          ELSE /\ PrintT("@FAIL " \o ToJson([t |-> t, l |-> l, clauses |-> b]))
               /\ l' = Len(Tr.ev) + 100 /\ UNCHANGED <<comps, part, med, T, owner>>
=============================================================================
