------------------------------ MODULE LaraModel ------------------------------
(* The optimizer on objectives (x_a - c)^2, whose normalised gradients are unit      *)
(* vectors: exact integer motion in units of 1/K inside the box [0, W K]^2.           *)
EXTENDS Num, Json
CONSTANTS NPts, NObj, K, W, Iters
VARIABLES obj, start, X, it, path, open
vars == <<obj, start, X, it, path, open>>
Cs == {-K, K \div 2, (W + 1) * K}
Objs == {o \in [1..NObj -> (1..2) \X Cs] : \A i \in 1..NObj - 1 : o[i][1] * 1000 + o[i][2] <= o[i + 1][1] * 1000 + o[i + 1][2]}
Grid == [1..2 -> {0, K, W * K}]
InCode(p) == p[1] * 100000 + p[2]
Init ==
  /\ obj \in Objs
  /\ start \in {s \in [1..NPts -> Grid] : \A i \in 1..NPts - 1 : InCode(s[i]) <= InCode(s[i + 1])}
  /\ X = start /\ it = 0 /\ path = <<>> /\ open = TRUE
Go(x) == [a \in 1..2 |-> SumRange(NObj, LAMBDA k : IF obj[k][1] = a THEN Sgn(obj[k][2] - x[a]) ELSE 0)]
Keep(x) == [a \in 1..2 |-> IF (x[a] = 0 /\ Go(x)[a] < 0) \/ (x[a] = W * K /\ Go(x)[a] > 0) THEN 0 ELSE Go(x)[a]]
Smooth(Y) == \A i \in 1..Len(Y) : \A k \in 1..NObj : Y[i][obj[k][1]] # obj[k][2]
(* the candidates for the step size, as fractions *)
Fr(Y) == {<<1, 1>>} \cup {<<IF Keep(Y[i])[a] < 0 THEN Y[i][a] ELSE W * K - Y[i][a], Abs(Keep(Y[i])[a]) * K>> : i \in 1..Len(Y), a \in {q \in 1..2 : TRUE}}
Size(Y) == LET F == {f \in Fr(Y) : f[2] # 0} IN CHOOSE f \in F : \A g \in F : f[1] * g[2] <= g[1] * f[2]
(* one of each, in order of first occurrence *)
RECURSIVE Uniq(_)
Uniq(Y) == IF Y = <<>> THEN <<>> ELSE LET r == Uniq(SubSeq(Y, 1, Len(Y) - 1)) y == Y[Len(Y)] IN IF y \in Range0(r) THEN r ELSE Append(r, y)
Moves(Y) == LET f == Size(Y) IN [i \in 1..Len(Y) |-> [a \in 1..2 |-> Y[i][a] + (Keep(Y[i])[a] * f[1] * K) \div f[2]]]
Exact(Y) == LET f == Size(Y) IN \A i \in 1..Len(Y) : \A a \in 1..2 : (Keep(Y[i])[a] * f[1] * K) % f[2] = 0
Step ==
  /\ it < Iters /\ open
  /\ LET Y == Uniq(X) IN
     IF Smooth(Y) /\ Exact(Y)
     THEN X' = Moves(Y) /\ it' = it + 1 /\ path' = Append(path, X') /\ open' = TRUE
     ELSE UNCHANGED <<X, it, path>> /\ open' = FALSE
  /\ UNCHANGED <<obj, start>>
Spec == Init /\ [][Step]_vars
InBox == \A i \in 1..Len(X) : \A a \in 1..2 : X[i][a] >= 0 /\ X[i][a] <= W * K
Shrinking == [][Len(X') <= Len(X) /\ (it' > it => Len(X') = Cardinality(Range0(X)))]_vars
(* a shortened step ends with a point newly at a bound *)
AtB(v) == v = 0 \/ v = W * K
AsFarAsPossible ==
  [][(it' > it) => LET Y == Uniq(X) IN
        \/ \A i \in 1..Len(Y) : \A a \in 1..2 : X'[i][a] - Y[i][a] = K * Keep(Y[i])[a]
        \/ \E i \in 1..Len(Y) : \E a \in 1..2 : AtB(X'[i][a]) /\ X'[i][a] # Y[i][a]]_vars
(* all points move by the same multiple of their headings *)
Common ==
  [][(it' > it) => LET Y == Uniq(X) IN \A i, j \in 1..Len(Y) : \A a, b \in 1..2 :
        (X'[i][a] - Y[i][a]) * Keep(Y[j])[b] = (X'[j][b] - Y[j][b]) * Keep(Y[i])[a]]_vars
Emit == (it = Iters \/ ~open) /\ it > 0 => PrintT("@RUN " \o ToJson([obj |-> obj, start |-> start, path |-> path]))
=============================================================================
