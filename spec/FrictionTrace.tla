---------------------------- MODULE FrictionTrace ----------------------------
(* Answers of the real friction solvers. *)
EXTENDS TraceBase, Friction
Init == l = 1
Judge == CASE Ev.e = "sb" -> Solver(Ev) [] Ev.e = "sp" -> Staggered(Ev) [] Ev.e = "gf" -> OneShot(Ev)
Next == l <= Len(Trace) /\ Holds(Judge) /\ l' = l + 1
=============================================================================
