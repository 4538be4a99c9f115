------------------------------ MODULE MapsTrace ------------------------------
(* Histories of the real maps: steps, resets, and saving and reloading in between. *)
EXTENDS TraceBase, Maps
Init == l = 1 /\ map = [kind |-> "none"] /\ cache = None /\ f = << >>
NewMap == IsEvent("map") /\ map' = Ev /\ cache' = None /\ f' = << >>
NewScene == IsEvent("scene") /\ cache' = None /\ UNCHANGED << map, f >>
Step == IsEvent("flow") /\ Holds(Flow(Ev)) /\ cache' = NextCache(Ev) /\ f' = NextForce(Ev) /\ UNCHANGED map
Reset == IsEvent("reset") /\ f' = << >> /\ UNCHANGED << map, cache >>
\* saving and reloading everything makes no difference
Save == IsEvent("save") /\ Ev.whole /\ UNCHANGED << map, cache, f >>
Next == l' = l + 1 /\ (NewMap \/ NewScene \/ Step \/ Reset \/ Save)
=============================================================================
