-------------------------------- MODULE Num --------------------------------
(* Arithmetic shared by all specifications: exact integers, fixed-point      *)
(* comparison, sums, integer square roots, vectors and matrices over Int.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

NaN == 1999999999            \* how the recorder encodes an undefined number

Abs(x) == IF x < 0 THEN -x ELSE x
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0

(* recorded value a agrees with the specified value b up to tol units *)
Close(a, b, tol) == a # NaN /\ Abs(a) <= 1000000000 /\ Abs(a - b) <= tol
CloseSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : Close(a[i], b[i], tol)
CloseMat(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : CloseSeq(a[i], b[i], tol)

SumSeq(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
MaxSeq(s) == FoldLeft(LAMBDA x, y : Mx(x, y), s[1], s)
MinSeq(s) == FoldLeft(LAMBDA x, y : Mn(x, y), s[1], s)
SumRange(n, f(_)) == FoldFunction(+, 0, [i \in 1..n |-> f(i)])
Tup(n, f(_)) == [i \in 1..n |-> f(i)]

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

(* floor of the square root, by Newton iteration *)
RECURSIVE ISqrtFrom(_, _)
ISqrtFrom(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE ISqrtFrom(n, y)
ISqrt(n) == IF n = 0 THEN 0 ELSE ISqrtFrom(n, Mn(n, 46340))

Dot(u, v) == SumRange(Len(u), LAMBDA i : u[i] * v[i])
VAdd(u, v) == [i \in 1..Len(u) |-> u[i] + v[i]]
VSub(u, v) == [i \in 1..Len(u) |-> u[i] - v[i]]
VScale(c, u) == [i \in 1..Len(u) |-> c * u[i]]
Dist2(u, v) == SumRange(Len(u), LAMBDA i : (u[i] - v[i]) * (u[i] - v[i]))
MatVec(A, v) == [i \in 1..Len(A) |-> Dot(A[i], v)]
Transpose(A) == [j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]]
VecMat(v, A) == [j \in 1..Len(A[1]) |-> SumRange(Len(v), LAMBDA i : v[i] * A[i][j])]
MatMul(A, B) == [i \in 1..Len(A) |-> VecMat(A[i], B)]
SumVecs(S, n) == [j \in 1..n |-> SumRange(Len(S), LAMBDA i : S[i][j])]

(* all bijections of 1..n *)
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}

Range0(s) == {s[i] : i \in 1..Len(s)}
(* positions (1-based) of the sequence for which P holds, ascending *)
SelectIdx(n, P(_)) == SetToSortSeq({i \in 1..n : P(i)}, <)

(* ---- verdict protocol shared by the trace specifications --------------- *)
Bad(clauses) == {c \in DOMAIN clauses : ~clauses[c]}
=============================================================================
