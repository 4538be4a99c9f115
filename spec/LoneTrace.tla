----------------------------- MODULE LoneTrace ------------------------------
(* Recorded runs of bodies that mostly have one contact each: every step     *)
(* against the closed form.                                                  *)
EXTENDS TraceBase, Lone
VARIABLE w, st
Init == l = 1 /\ w = [n |-> 0] /\ st = [n |-> 0]
World == IsEvent("world") /\ w' = Ev /\ st' = [q |-> Ev.q, v |-> Ev.v] /\ l' = l + 1
Big == LET a == RAdd(1, RAdd(VInf(st.v), VInf(st.q))) IN RMul("1e-7", a)
Lawful ==
  /\ VFinite(Ev.q) /\ VFinite(Ev.v)
  /\ Found(w, Ev, st.q, st.v)
  /\ Law(w, Ev, st.q, st.v, Ev.q, Ev.v, Big)
  /\ Unmet(w, Ev, st.q, st.v, Ev.q, Ev.v, Big)
Step == IsEvent("step") /\ Holds(Lawful) /\ st' = [q |-> Ev.q, v |-> Ev.v] /\ l' = l + 1 /\ UNCHANGED w
Next == World \/ Step
=============================================================================
