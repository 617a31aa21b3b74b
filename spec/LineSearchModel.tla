-------------------------- MODULE LineSearchModel --------------------------
(* Every pattern of trial merits, for every maximal step; the complete        *)
(* searches are exported and replayed into the implementation.                *)
EXTENDS LineSearch, Json
CONSTANTS MaxSteps, Kinds, Converged
VARIABLES mx, gains, steps, res, conv
vars == <<mx, gains, steps, res, conv>>

GainOf(k, u) == CASE k = "deep" -> 200000000
                  [] k = "just" -> 2 * u + 1
                  [] k = "short" -> 2 * u - 1
                  [] k = "equal" -> 0
                  [] k = "worse" -> -1000001
                  [] k = "muchworse" -> -1000000000
                  [] k = "nan" -> NaN

Init == mx \in MaxSteps /\ conv \in Converged /\ gains = <<>> /\ steps = <<>> /\ res = 0
(* one trial: at the next step size, with an arbitrary merit *)
Try == /\ res = 0 /\ Len(steps) < Trials
       /\ LET u == StepOf(mx, Len(steps) + 1) IN
          \E k \in Kinds :
            LET g == GainOf(k, u) IN
            /\ steps' = Append(steps, u) /\ gains' = Append(gains, g)
            /\ res' = IF conv \/ Acceptable(g, u) THEN u
                      ELSE IF Len(steps) + 1 = Trials THEN StepOf(mx, Trials + 1) ELSE 0
       /\ UNCHANGED <<mx, conv>>
Spec == Init /\ [][Try]_vars /\ WF_vars(Try)

Terminates == <>(res # 0)
ResultPositive == res >= 0 /\ (Len(steps) = Trials => res > 0)
FirstAcceptable ==
  res # 0 =>
    LET ok == {k \in 1..Len(steps) : conv \/ Acceptable(gains[k], steps[k])} IN
    IF ok = {} THEN Len(steps) = Trials /\ 2 * res = steps[Trials]
    ELSE Len(steps) = Min(ok) /\ res = steps[Min(ok)]
StepsHalve == /\ Len(steps) > 0 => steps[1] = mx
              /\ \A k \in 2..Len(steps) : 2 * steps[k] = steps[k - 1]
Emit == res # 0 => PrintT("@VEC " \o ToJson([mx |-> mx, conv |-> IF conv THEN 1 ELSE 0, gains |-> gains, steps |-> steps, res |-> res]))
=============================================================================
