----------------------------- MODULE LineSearch -----------------------------
(* The backtracking line search: trial k uses the maximal step halved k-1     *)
(* times; trial merits are judged in order; the search ends at the first      *)
(* acceptable one or after Trials unacceptable ones with one more halving.    *)
EXTENDS Num
Trials == 6
StepOf(mx, k) == mx \div (2 ^ (k - 1))       \* exact: mx is a multiple of 2^Trials in its unit

(* An outcome is acceptable when the merit is at most (1 - 1e-5 step) * phi0 *)
(* gain = phi0 - merit in halves of 1e-5/1024 * phi0; step in 1/1024 units    *)
Acceptable(gain, step) == gain # NaN /\ gain >= 2 * step
=============================================================================
