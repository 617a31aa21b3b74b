---------------------------- MODULE Hypervolume ----------------------------
(* Hypervolume of integer point sets: two independent definitions, and its   *)
(* exact derivatives in general position (the hypervolume is multilinear in  *)
(* the coordinates as long as no two of them cross).                         *)
EXTENDS Dominance

(* measure of the dominated region, slab by slab *)
RECURSIVE Vol(_, _, _)
Vol(P, ref, d) ==
  IF P = {} THEN 0
  ELSE IF d = 1 THEN Mx(0, ref[1] - Min({p[1] : p \in P}))
  ELSE LET V == {p[d] : p \in {q \in P : q[d] < ref[d]}}
           Next(v) == Min({w \in V \cup {ref[d]} : w > v})
       IN FoldSet(LAMBDA v, acc : acc + (Next(v) - v) * Vol({p \in P : p[d] <= v}, ref, d - 1), 0, V)
HV(pts, ref) == Vol(Range0(pts), ref, Len(ref))

(* number of dominated unit cells *)
CellsBelow(lo, ref) == {c \in [1..Len(ref) -> lo..(Max({ref[k] : k \in 1..Len(ref)}) - 1)] : \A k \in 1..Len(ref) : c[k] < ref[k]}
HVCells(pts, ref, lo) ==
  Cardinality({c \in CellsBelow(lo, ref) : \E i \in 1..Len(pts) : \A k \in 1..Len(ref) : pts[i][k] <= c[k]})

(* general position: strictly below ref, coordinates at least `gap` apart *)
Generic(pts, ref, gap) ==
  /\ \A i \in 1..Len(pts), k \in 1..Len(ref) : pts[i][k] <= ref[k] - gap
  /\ \A i, j \in 1..Len(pts), k \in 1..Len(ref) : i # j => Abs(pts[i][k] - pts[j][k]) >= gap

Bump(pts, i, k, e) == [pts EXCEPT ![i][k] = @ + e]
(* flat variable v <-> (point, objective) *)
Pt(v, m) == 1 + (v - 1) \div m
Ob(v, m) == 1 + ((v - 1) % m)
BumpV(pts, v, e, m) == Bump(pts, Pt(v, m), Ob(v, m), e)

HVGrad(pts, ref) ==
  LET m == Len(ref) base == HV(pts, ref)
  IN [v \in 1..(Len(pts) * m) |-> HV(BumpV(pts, v, 1, m), ref) - base]
HVGradBackward(pts, ref) ==
  LET m == Len(ref) base == HV(pts, ref)
  IN [v \in 1..(Len(pts) * m) |-> base - HV(BumpV(pts, v, -1, m), ref)]

HVHess(pts, ref) ==
  LET m == Len(ref) n == Len(pts) * m
      base == HV(pts, ref)
      one == [v \in 1..n |-> HV(BumpV(pts, v, 1, m), ref)]
      two == [uv \in {w \in (1..n) \X (1..n) : w[1] < w[2]} |->
                HV(BumpV(BumpV(pts, uv[1], 1, m), uv[2], 1, m), ref)]
      D(u, v) == two[<<u, v>>] - one[u] - one[v] + base
  IN [u \in 1..n |-> [v \in 1..n |-> IF u = v THEN 0 ELSE IF u < v THEN D(u, v) ELSE D(v, u)]]
=============================================================================
