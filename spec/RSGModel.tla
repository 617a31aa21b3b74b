------------------------------ MODULE RSGModel ------------------------------
(* All small point sets: components partition, chains connect, fillings stay on  *)
(* one component's polyline; emitted as inputs for the implementation.            *)
EXTENDS RSG, Json
CONSTANTS Side, MaxPts, E2s, MPs, Nfs, Emitting
Grid == (0..Side) \X (0..Side)
VARIABLES pts, e2, mp, nf
Init == pts = <<>> /\ e2 \in E2s /\ mp \in MPs /\ nf \in Nfs
Add == Len(pts) < MaxPts /\ \E p \in Grid : (Len(pts) > 0 => pts[Len(pts)][1] <= p[1]) /\ pts' = Append(pts, p) /\ UNCHANGED <<e2, mp, nf>>
Next == Add
Spec == Init /\ [][Next]_<<pts, e2, mp, nf>>
CC == CoreComps(pts, e2, mp)
CompSeq == SetToSeq({SetToSortSeq(S \cup {i \in Border(pts, e2, mp) : \E j \in S : Dist2(pts[i], pts[j]) <= e2 /\ \A k \in Core(pts, e2, mp) \ S : Dist2(pts[i], pts[k]) > e2}, <) : S \in CC})
Comp(c) == [k \in 1..Len(CompSeq[c]) |-> pts[CompSeq[c][k]]]
Partition == /\ UNION CC = Core(pts, e2, mp) /\ \A S, T \in CC : S = T \/ S \cap T = {}
Separated == \A S, T \in CC : S = T \/ \A i \in S, j \in T : Dist2(pts[i], pts[j]) > e2
NoNoiseForOne == mp = 1 => Noise(pts, e2, mp) = {}
PairsHaveNoBorder == mp <= 2 => Border(pts, e2, mp) = {}
SharesNearRequest == CC = {} \/ LET L == [c \in 1..Len(CompSeq) |-> LengthOf(Comp(c))] IN
   LET low == SumSeq([c \in 1..Len(L) |-> Min(Shares(L[c], SumSeq(L), Len(L), nf))])
       high == SumSeq([c \in 1..Len(L) |-> Max(Shares(L[c], SumSeq(L), Len(L), nf))])
   IN /\ \A c \in 1..Len(L) : Shares(L[c], SumSeq(L), Len(L), nf) # {}
      /\ low <= nf + Len(L) /\ high >= nf - Len(L)
(* both ends, equal spacing along the arc, and on a segment between consecutive points *)
OnSegment(q, P) == Len(P) = 1 \/ \E i \in 1..Len(P) - 1 :
   LET a == VScale(K, P[i]) b == VScale(K, P[i + 1]) IN
   Abs(SegLen(a, q) + SegLen(q, b) - SegLen(a, b)) <= 4 * K
FillingOnPolyline == \A c \in 1..Len(CompSeq) : \A P \in Polylines(Comp(c)) :
   LET I == Fill(P, nf) IN
   /\ nf > 1 => I[1] = VScale(K, P[1]) /\ I[nf] = VScale(K, P[Len(P)])
   /\ \A j \in 1..nf, k \in 1..2 : \A q \in {I[j][k]} : q >= 0 /\ q <= K * Side
   /\ \A j \in 1..nf - 1 : Abs(I[j][1]) <= I[j + 1][1] + 1
Emit == (Emitting /\ Len(pts) > 0) => PrintT("@SET " \o ToJson([pts |-> pts, e2 |-> e2, mp |-> mp, nf |-> nf]))
=============================================================================
