----------------------------- MODULE WorldTrace -----------------------------
(* Histories of edits, copies and saves of real simulations. *)
EXTENDS TraceBase, World
VARIABLE w
Init == l = 1 /\ w = [lay |-> "none"]
New == IsEvent("new") /\ Holds(Sound(Ev.w)) /\ w' = Ev.w
Op == IsEvent("op") /\ Holds(Edit(w, Ev, Ev.w) /\ Sound(Ev.w)) /\ w' = Ev.w
Next == l' = l + 1 /\ (New \/ Op)
=============================================================================
