---------------------------- MODULE DeltaPModel ----------------------------
(* Small world of approximation and reference sets.  Points are added to      *)
(* either set and the whole reference set can be shifted; every reachable     *)
(* pair of sets is exported with its exact distances.                         *)
EXTENDS DeltaP, Json
CONSTANTS Hi, Dim, MaxY, MaxR
VARIABLES Y, R, shifted
vars == <<Y, R, shifted>>
Points == [1..Dim -> 0..Hi]
S == 1000
Eta == [k \in 1..Dim |-> -1]

Init == Y = <<>> /\ R = <<>> /\ shifted = 0
AddY(p) == Len(Y) < MaxY /\ Y' = Append(Y, p) /\ UNCHANGED <<R, shifted>>
AddR(p) == Y = <<>> /\ Len(R) < MaxR /\ R' = Append(R, p) /\ UNCHANGED <<Y, shifted>>
Shift == /\ shifted = 0 /\ R # <<>> /\ Y = <<>>
         /\ R' = [j \in 1..Len(R) |-> VAdd(R[j], Eta)] /\ shifted' = 1 /\ UNCHANGED Y
Next == Shift \/ \E p \in Points : AddY(p) \/ AddR(p)
Spec == Init /\ [][Next]_vars

Full == Y # <<>> /\ R # <<>>
Duality == Full => GDSum(Y, R, 4, S) = IGDSum(R, Y, 4, S)
ZeroIffCovered == Full => ((GDSum(Y, R, 2, S) = 0) <=> Range0(Y) \subseteq Range0(R))
                          /\ ((IGDSum(Y, R, 2, S) = 0) <=> Range0(R) \subseteq Range0(Y))
ShiftInvariant == Full => LET sh(A) == [i \in 1..Len(A) |-> VAdd(A[i], [k \in 1..Dim |-> 7])] IN
                    GDSum(sh(Y), sh(R), 8, S) = GDSum(Y, R, 8, S)
PowerMean == Full => (* GD_1 <= GD_2 : (sum d)^2 <= N sum d^2 *)
   LET a == GDSum(Y, R, 2, 10) b == GDSum(Y, R, 4, 1) IN (a \div 10) * (a \div 10) <= Len(Y) * b + 1
(* bringing in more reference points never increases GD; more approximation points never increase the IGD *)
MoreRefs == [][(R # <<>> /\ Y # <<>> /\ Len(R') > Len(R)) => GDSum(Y, R', 4, 1) <= GDSum(Y, R, 4, 1)]_vars
MoreY == [][(R # <<>> /\ Y # <<>> /\ Len(Y') > Len(Y)) => IGDSum(Y', R, 4, 1) <= IGDSum(Y, R, 4, 1)]_vars

Ps == {1, 2, 4, 6, 8}
Emit == Full => PrintT("@VEC " \o ToJson([y |-> Y, r |-> R,
          gd |-> [p \in Ps |-> GDSum(Y, R, p, S)], igd |-> [p \in Ps |-> IGDSum(Y, R, p, S)],
          egd |-> [p \in Ps |-> GDErr(Y, R, p)], eigd |-> [p \in Ps |-> IGDErr(Y, R, p)]]))
=============================================================================
