----------------------------- MODULE MotionTrace -----------------------------
(* Recorded steps of the real integrators. *)
EXTENDS TraceBase, Motion
Init == l = 1
Next == l' = l + 1 /\ IsEvent("move") /\ Holds(Move(Ev))
=============================================================================
