---------------------------- MODULE TraceHelpers ----------------------------
(* "fold": X points (rows), lo, hi, R result rows, inside, shape, same             *)
(* "bounds": b, dim, out, rejected                                                  *)
(* "unpack": v, n, dp, A, out;  "pack": X, dp, A, out                               *)
(* "hess": H, D = (result - H) * 10^6 on and off the diagonal                        *)
(* "chim": Y, n                                                                      *)
EXTENDS Helpers, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
Tr == Traces[t]
Ev == Tr.ev[l]
(* tau in 1/10^6; q: grid of the definiteness test *)
Q(H) == IF \A i \in 1..Len(H) : Cardinality(Linked(H, {i})) <= 2 THEN 250 ELSE 8
Down(tau, q) == ((tau \div 1000) * q) \div 1000
Clauses(e) ==
  CASE e.op = "raised" -> [no_exception |-> FALSE]
    [] e.op = "fold" ->
        [reflected |-> CloseMat(e.R, [i \in 1..Len(e.X) |-> FoldPoint(e.X[i], e.lo, e.hi)], 1),
         inside_the_box |-> e.inside, shape_kept |-> e.shape, input_untouched |-> e.same]
    [] e.op = "bounds" -> [one_value_per_variable |-> IF Len(e.b) \in {1, e.dim} THEN ~e.rejected /\ e.out = Expand(e.b, e.dim) ELSE e.rejected]
    [] e.op = "pack" -> [packed |-> e.out = Pack(e.X, e.dp, e.A)]
    [] e.op = "unpack" -> [unpacked |-> e.out = Unpack(e.v, e.n, e.dp, e.A)]
    [] e.op = "hess" ->
        LET q == Q(e.H) n == Len(e.H) tau == e.D[1][1] first == IF MinDiag(e.H) <= 0 THEN 1 - 1000000 * MinDiag(e.H) ELSE 1 IN
        [same_multiple_of_identity |-> Len(e.D) = n /\ \A i, j \in 1..n : IF i = j THEN Abs(e.D[i][j] - tau) <= 1 ELSE Abs(e.D[i][j]) <= 1,
         not_negative |-> tau >= 0,
         unchanged_if_definite |-> PD(e.H) => tau = 0,
         shifted_if_indefinite |-> ~PDShift(e.H, 1, q) => tau >= 1,
         definite_afterwards |-> PDShift(e.H, Down(tau, q) + 1, q),
         least_trial |-> tau <= first + 2 \/ ~PDShift(e.H, Down(tau \div 2, q) - 1, q)]
    [] e.op = "chim" -> [unit_normal_without_positive_component |-> DirectionOk(e.n, e.Y)]
Init == t \in 1..Len(Traces) /\ l = 1
Next ==
  /\ l <= Len(Tr.ev) + 1
  /\ UNCHANGED t
  /\ IF l = Len(Tr.ev) + 1
     THEN PrintT("@DONE " \o ToJson([t |-> t])) /\ l' = l + 1
     ELSE LET b == Bad(Clauses(Ev)) IN
          IF b = {} THEN l' = l + 1
          ELSE /\ PrintT("@FAIL " \o ToJson([t |-> t, l |-> l, clauses |-> b]))
               /\ l' = Len(Tr.ev) + 100
=============================================================================
