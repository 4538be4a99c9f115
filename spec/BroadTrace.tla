----------------------------- MODULE BroadTrace -----------------------------
(* Pairs reported by the spatial grids and all-pairs tests of the three     *)
(* simulators.                                                              *)
EXTENDS TraceBase, Broad
Init == l = 1
AsSet(ps) == {<< ps[k][1] + 1, ps[k][2] + 1 >> : k \in 1..Len(ps)}
Grid == /\ IsEvent("grid")
        /\ Holds(LET want == Pairs(Ev.boxes) IN AsSet(Ev.pairs) = want /\ AsSet(Ev.all) = want)
        /\ l' = l + 1
Next == Grid
=============================================================================
