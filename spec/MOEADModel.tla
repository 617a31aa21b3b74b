----------------------------- MODULE MOEADModel -----------------------------
(* Every replacement step on small populations; emitted as scenarios that are  *)
(* replayed into the implementation.                                           *)
EXTENDS MOEAD, Json
CONSTANTS Decs, MaxCV, Steps, G, U10, Emitting
Points == {<<0, 2>>, <<1, 1>>, <<2, 0>>, <<2, 2>>}
W == <<<<0, 2>>, <<1, 1>>, <<2, 0>>>>
T == 2
Inds == Points \X (0..MaxCV)
VARIABLES dec, pop, cv0, ideal, p, hist, phase, start
vars == <<dec, pop, cv0, ideal, p, hist, phase, start>>
F(x) == x[1]
CV(x) == x[2]
Low(S) == [i \in 1..2 |-> Min({f[i] : f \in S})]
N(k) == {j \in 1..3 : Near(W, k, j) < T}
Init == /\ dec \in Decs /\ pop \in [1..3 -> Inds] /\ p = 0 /\ hist = <<>> /\ phase = "go"
        /\ cv0 = <<CV(pop[1]), CV(pop[2]), CV(pop[3])>>
        /\ ideal = Low({F(pop[i]) : i \in 1..3})
        /\ start = pop
Step(k, o) ==
  LET id == Low({ideal, F(o)}) tol == Tolerance(cv0, p, G, U10)
      R == {j \in N(k) : Better(dec, TRUE, F(o), CV(o), F(pop[j]), CV(pop[j]), W[j], id, tol) = 1}
  IN /\ ideal' = id
     /\ pop' = [j \in 1..3 |-> IF j \in R THEN o ELSE pop[j]]
     /\ hist' = Append(hist, [k |-> k, f |-> F(o), cv |-> CV(o), p |-> p])
     /\ UNCHANGED <<dec, cv0, p, phase, start>>
Progress == p < G /\ Len(hist) < Steps /\ p' = p + 1 /\ UNCHANGED <<dec, pop, cv0, ideal, hist, phase, start>>
Next == \/ Len(hist) < Steps /\ \E k \in 1..3, o \in Inds : Step(k, o)
        \/ Progress
Spec == Init /\ [][Next]_vars

Tol == Tolerance(cv0, p, G, U10)
IdealIsLower == \A j \in 1..3, i \in 1..2 : ideal[i] <= F(pop[j])[i]
ToleranceBounded == Tol[1] * Len(cv0) <= SumSeq(cv0) * Tol[2]
ZeroFromConfiguredFraction == 10 * p >= U10 * G => Tol[1] = 0
(* a replacement never trades an accepted violation for an excessive one, and never raises the excess *)
NeverWorse == [][\A j \in 1..3 : (p' = p /\ pop'[j] # pop[j]) =>
    /\ Excess(CV(pop'[j]), Tol) <= Excess(CV(pop[j]), Tol)
    /\ (Excess(CV(pop[j]), Tol) = 0 => Lower(dec, F(pop'[j]), F(pop[j]), W[j], ideal') = 1)]_vars
ToleranceShrinks == [][Tol'[1] <= Tol[1]]_vars
(* once the tolerance is zero a feasible incumbent stays feasible *)
FeasibleStays == [][\A j \in 1..3 : (Tol[1] = 0 /\ CV(pop[j]) = 0) => CV(pop'[j]) = 0]_vars
OnlyNeighbours == [][\A j \in 1..3 : (Len(hist') > Len(hist) /\ pop'[j] # pop[j]) => j \in N(hist'[Len(hist')].k)]_vars
Emit == (Emitting /\ Len(hist) = Steps) =>
   PrintT("@RUN " \o ToJson([dec |-> dec, pop |-> [j \in 1..3 |-> [f |-> F(start[j]), cv |-> CV(start[j])]], hist |-> hist]))
=============================================================================
