---------------------------- MODULE RefSetModel ----------------------------
(* Histories of a reference set: matchings of different point sets (of equal  *)
(* and different sizes) and shifts of all or of single targets.  Checks that  *)
(* the bookkeeping keeps its promises for every nondeterministic choice, and  *)
(* exports every operation schedule for replay into the implementation.       *)
EXTENDS RefSet, Json
CONSTANTS World, Depth
VARIABLES comps, part, med, T, owner, hist
vars == <<comps, part, med, T, owner, hist>>

W1 == << << <<0, 8>>, <<2, 6>>, <<4, 4>> >> >>
W2 == << << <<0, 20>>, <<2, 16>>, <<4, 14>> >>, << <<16, 4>>, <<20, 0>> >> >>
W3 == << << <<0, 20>>, <<3, 17>> >>, << <<10, 10>>, <<12, 8>> >>, << <<20, 0>>, <<24, -4>> >> >>
Worlds == CASE World = 1 -> W1 [] World = 2 -> W2 [] World = 3 -> W3
Ys == CASE World = 1 -> << <<<<0, 9>>, <<5, 5>>>>, <<<<6, 4>>, <<1, 9>>>>, <<<<3, 7>>, <<0, 11>>, <<6, 6>>>> >>
        [] World = 2 -> << <<<<1, 19>>, <<21, 1>>>>, <<<<17, 6>>, <<3, 18>>>>, <<<<3, 18>>, <<5, 15>>, <<22, 1>>>> >>
        [] World = 3 -> << <<<<1, 21>>, <<25, 0>>>>, <<<<22, 1>>, <<11, 11>>>>, <<<<13, 9>>, <<1, 20>>, <<21, 3>>>> >>
Eta == [k \in 1..Len(Worlds) |-> <<-k, -1>>]

Init == comps = Worlds /\ part = <<>> /\ med = [k \in 1..Len(Worlds) |-> <<>>] /\ T = <<>> /\ owner = <<>> /\ hist = <<>>

Legal(Y, C, M) ==
  LET pool == IF Kept(Y, M) THEN M ELSE C
      cands == {[i \in 1..Len(Y) |-> pool[f[i]]] : f \in InjSeqs(Len(Y), Len(pool))}
  IN {t \in cands : LegalTargets(Y, t, C, M, 0)}

Match(y) ==
  LET Y == Ys[y]
      pt == NextPart(comps, part, Y)
      cls == [j \in 1..Len(pt) |-> Pick(Y, pt[j])]
  IN \E f \in OptMaps(comps, cls, 0) :
     \E ch \in [1..Len(pt) -> UNION {Legal(cls[j], comps[f[j]], med[f[j]]) : j \in 1..Len(pt)}] :
       /\ \A j \in 1..Len(pt) : ch[j] \in Legal(cls[j], comps[f[j]], med[f[j]])
       /\ part' = pt
       /\ med' = [k \in 1..Len(comps) |-> IF \E j \in 1..Len(pt) : f[j] = k
                                           THEN ch[CHOOSE j \in 1..Len(pt) : f[j] = k] ELSE med[k]]
       /\ owner' = [i \in 1..Len(Y) |-> LET j == CHOOSE q \in 1..Len(pt) : i \in Range0(pt[q])
                                            IN <<f[j], CHOOSE q \in 1..Len(pt[j]) : pt[j][q] = i>>]
       /\ T' = [i \in 1..Len(Y) |-> LET j == CHOOSE q \in 1..Len(pt) : i \in Range0(pt[q])
                                        IN ch[j][CHOOSE q \in 1..Len(pt[j]) : pt[j][q] = i]]
       /\ hist' = Append(hist, <<"match", y>>)
       /\ UNCHANGED comps
Shift(I) ==
  IF T = <<>> THEN
     /\ comps' = [k \in 1..Len(comps) |-> [j \in 1..Len(comps[k]) |-> VAdd(comps[k][j], Eta[k])]]
     /\ hist' = Append(hist, <<"shift", I>>) /\ UNCHANGED <<part, med, T, owner>>
  ELSE LET J == IF I = 0 THEN 1..Len(T) ELSE {I} IN
     /\ T' = [i \in 1..Len(T) |-> IF i \in J THEN VAdd(T[i], Eta[owner[i][1]]) ELSE T[i]]
     /\ med' = [k \in 1..Len(comps) |-> [q \in 1..Len(med[k]) |->
          IF \E i \in J : owner[i] = <<k, q>> THEN VAdd(med[k][q], Eta[k]) ELSE med[k][q]]]
     /\ hist' = Append(hist, <<"shift", I>>) /\ UNCHANGED <<comps, part, owner>>
Next == Len(hist) < Depth /\ ((\E y \in 1..Len(Ys) : Match(y)) \/ \E I \in 0..2 : Shift(I))
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
Matched == T # <<>>
OneTargetEach == Matched => Len(T) = Len(owner) /\ \A i \in 1..Len(T) : T[i] = med[owner[i][1]][owner[i][2]]
OwnersDistinct == \A i, j \in 1..Len(owner) : i # j => owner[i] # owner[j]
CountsMatch == Matched => \A k \in 1..Len(comps) : LET u == Cardinality({i \in 1..Len(owner) : owner[i][1] = k})
                                                     IN u = 0 \/ u = Len(med[k])
Count(seq, v) == Cardinality({i \in 1..Len(seq) : seq[i] = v})
(* rematching the same number of points only re-permutes the targets *)
RematchPermutes == [][(Matched /\ hist'[Len(hist')][1] = "match" /\ Len(T') = Len(T) /\ part' = part
                       /\ {owner'[i][1] : i \in 1..Len(T)} = {owner[i][1] : i \in 1..Len(T)}
                       /\ \A k \in 1..Len(comps) : Len(med'[k]) = Len(med[k]))
                      => \A v \in Range0(T) : Count(T', v) = Count(T, v)]_vars
ShiftIsLocal == [][(hist'[Len(hist')][1] = "shift" /\ hist'[Len(hist')][2] # 0 /\ Matched)
                   => \A i \in 1..Len(T) : i # hist'[Len(hist')][2] => T'[i] = T[i]]_vars
Emit == Len(hist) = Depth => PrintT("@SCHED " \o ToJson([ops |-> hist]))
=============================================================================
