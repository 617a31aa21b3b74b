------------------------------ MODULE Interop ------------------------------
(* Conversion between problems of the library and of pymoo.                    *)
(* (a) Wrapping keeps sizes, bounds, constraint counts and values (Problem).   *)
(* (b) The factory of JAX-backed pymoo problems.  State: tb, the backend that  *)
(*     "import pymoo.gradient.toolbox" resolves to, and for each family of     *)
(*     problem modules the backend it was loaded with.                         *)
EXTENDS Problem
Jax == "jax.numpy"
Absent == "absent"
Families == {"multi", "many"}
Backends == {"autograd.numpy", "numpy", Jax}
(* the modules of "multi" import those of "many" (also when one of them then fails) *)
Loaded(x, b) == IF x = Absent THEN b ELSE x
Load(s, f, b) == [s EXCEPT !.many = Loaded(@, b), !.multi = IF f = "multi" THEN Loaded(@, b) ELSE @]
(* actions: [a, f, b] *)
Usable(s, f) == s[f] \in {Absent, Jax}
After(s, x) ==
  CASE x.a \in {"get", "getbad"} -> IF Usable(s, x.f) THEN Load(s, x.f, Jax) ELSE s
    [] x.a = "unsupported" -> s
    [] x.a = "blocked" -> IF x.f = "multi" THEN Load(s, "many", Jax) ELSE s
    [] x.a = "plain" -> IF s[x.f] = Absent THEN Load(s, x.f, s.tb) ELSE s
    [] x.a = "activate" -> [s EXCEPT !.tb = x.b]
Succeeds(s, x) ==
  CASE x.a = "get" -> Usable(s, x.f)
    [] x.a \in {"plain", "activate"} -> TRUE
    [] OTHER -> FALSE
Enabled(s, x) == x.a = "blocked" => s[x.f] = Absent
=============================================================================
