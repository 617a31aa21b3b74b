------------------------------ MODULE DPNModel ------------------------------
(* The Delta_p Newton method on the identity map (objectives = decisions), where   *)
(* the Newton step is the vector to the target and is cut at the box: how targets   *)
(* and points evolve over several iterations.  Units of 1/100; eta = (-1,-1).       *)
EXTENDS Num, TLC, Json
CONSTANTS Grid, Lo, Hi, MaxN, Iters
VARIABLES Y, M, last, it, shifts, ini
vars == <<Y, M, last, it, shifts, ini>>
Box == Lo..Hi
Eta == <<-1, -1>>
D(u, v) == ISqrt(Dist2(u, v) * 100)
Cost(y, m, p) == SumRange(Len(y), LAMBDA i : D(y[i], m[p[i]]))
Best(y, m) == LET b == Min({Cost(y, m, p) : p \in Perms(Len(y))}) IN {p \in Perms(Len(y)) : Cost(y, m, p) = b}
Zero == <<0, 0>>
Clip(v) == [k \in 1..2 |-> Mx(Lo, Mn(Hi, v[k]))]
(* step towards the target, an axis blocked by the bound is dropped, then cut at the box *)
Blocked(y, s, k) == (y[k] = Lo /\ s[k] < 0) \/ (y[k] = Hi /\ s[k] > 0)
Drop1(y, s) == IF \E k \in 1..2 : Blocked(y, s, k) THEN LET k == CHOOSE q \in 1..2 : Blocked(y, s, q) /\ \A r \in 1..q - 1 : ~Blocked(y, s, r) IN [s EXCEPT ![k] = 0] ELSE s
(* a cut step ends on the first bound it meets (rounded inwards) *)
Room(y, s, k) == IF s[k] > 0 THEN Hi - y[k] ELSE y[k] - Lo
Frac(y, s) == LET C == {k \in 1..2 : s[k] # 0 /\ Room(y, s, k) < Abs(s[k])} IN
  IF C = {} THEN <<1, 1>> ELSE LET k == CHOOSE q \in C : \A r \in C : Room(y, s, q) * Abs(s[r]) <= Room(y, s, r) * Abs(s[q]) IN <<Room(y, s, k), Abs(s[k])>>
Quo(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
Move(y, s) == LET f == Frac(y, s) IN [k \in 1..2 |-> y[k] + Quo(s[k] * f[1], f[2])]

Sets == UNION {[1..n -> Grid \X Grid] : n \in 1..MaxN}
Init == \E y \in Sets : \E m \in [1..Len(y) -> Grid \X Grid] :
   /\ \A i, j \in 1..Len(m) : i < j => (m[i][1] < m[j][1])
   /\ Y = [i \in 1..Len(y) |-> Clip(y[i])] /\ M = m /\ last = [i \in 1..Len(y) |-> <<1, 1>>] /\ it = 0
   /\ shifts = [i \in 1..Len(y) |-> 0] /\ ini = [Y |-> y, M |-> m]
Step ==
  /\ it < Iters
  /\ \E p \in Best(Y, M) :
     LET due == IF it = 0 THEN 1..Len(M) ELSE {p[i] : i \in {q \in 1..Len(Y) : Y[q] = M[p[q]] /\ last[q] = Zero}}
         M1 == [j \in 1..Len(M) |-> IF j \in due THEN VAdd(M[j], VScale(IF it = 0 THEN 8 ELSE 5, Eta)) ELSE M[j]]
     IN \E q \in Best(Y, M1) :
          LET st == [i \in 1..Len(Y) |-> Drop1(Y[i], VSub(M1[q[i]], Y[i]))] IN
          /\ M' = M1
          /\ shifts' = [j \in 1..Len(M) |-> shifts[j] + (IF j \in due THEN 1 ELSE 0)]
          /\ last' = st
          /\ Y' = [i \in 1..Len(Y) |-> Move(Y[i], st[i])]
  /\ it' = it + 1
  /\ ini' = ini
Spec == Init /\ [][Step]_vars
InBox == \A i \in 1..Len(Y) : Y[i][1] \in Box /\ Y[i][2] \in Box
(* a target has moved only along its direction, 0.08 first and 0.05 afterwards *)
AlongEta == \A j \in 1..Len(M) : shifts[j] > 0 => M[j] = VAdd(ini.M[j], VScale(8 + 5 * (shifts[j] - 1), Eta))
FirstShiftsAll == it >= 1 => \A j \in 1..Len(M) : shifts[j] >= 1
(* no target runs away: between two later shifts its point needs one iteration to follow and one to rest *)
Patience == \A j \in 1..Len(M) : shifts[j] <= 1 + it \div 2
Emit == it = 0 => PrintT("@SCHED " \o ToJson([Y |-> ini.Y, M |-> ini.M]))
GridDef == {-10, 0, 9, 20}
LoDef == -5
=============================================================================
