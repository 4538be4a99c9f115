----------------------------- MODULE WholeTrace -----------------------------
(* Recorded runs: every step from the state the last one left.               *)
EXTENDS TraceBase, Whole
VARIABLE w, st
Init == l = 1 /\ w = [n |-> 0] /\ st = [n |-> 0]
World == IsEvent("world") /\ w' = Ev /\ st' = [q |-> Ev.q, v |-> Ev.v] /\ l' = l + 1
Lawful ==
  /\ VFinite(Ev.q) /\ VFinite(Ev.v)
  /\ Translation(w, Ev.cs, st.v, Ev.v, "1e-9")
  /\ Rotation(w, Ev.cs, st.q, st.v, Ev.q, Ev.v, "1e-9")
  /\ Dissipation(w, Ev, st.q, st.v, Ev.q, Ev.v, "1e-6")
  /\ Drift(w, Ev.cs, st.q, st.v, Ev.q, Ev.v, "1e-9")
Step == IsEvent("step") /\ Holds(Lawful) /\ st' = [q |-> Ev.q, v |-> Ev.v] /\ l' = l + 1 /\ UNCHANGED w
Next == World \/ Step
=============================================================================
