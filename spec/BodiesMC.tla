------------------------------ MODULE BodiesMC ------------------------------
(***************************************************************************)
(* Bodies that share geometries, edited in every order: all histories of   *)
(* adding and removing bodies and geometries up to a depth.  Bodies and    *)
(* geometries have identities here; the implementation knows them only by  *)
(* position, and must renumber.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, MaxBodies, MaxGeos
VARIABLES geos, bodies, hist, fresh
vars == << geos, bodies, hist, fresh >>
Init == geos = << 1, 2 >> /\ bodies = << [id |-> 3, geo |-> 2], [id |-> 4, geo |-> 1] >> /\ hist = << >> /\ fresh = 5
Drop(s, D) == LET keep == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : i \notin D) IN [i \in 1..Len(keep) |-> s[keep[i]]]
Log(op, arg) == hist' = Append(hist, << op, arg >>)
RECURSIVE Mask(_)
Mask(D) == IF D = {} THEN 0 ELSE LET d == CHOOSE x \in D : TRUE IN 2 ^ (d - 1) + Mask(D \ {d})
Circle == Len(geos) < MaxGeos /\ geos' = Append(geos, fresh) /\ fresh' = fresh + 1 /\ Log(0, 0) /\ UNCHANGED bodies
Body == Len(bodies) < MaxBodies /\ \E g \in 1..Len(geos) : bodies' = Append(bodies, [id |-> fresh, geo |-> geos[g]]) /\ Log(1, g)
        /\ fresh' = fresh + 1 /\ UNCHANGED geos
Unbody == \E D \in (SUBSET (1..Len(bodies))) \ {{}} : bodies' = Drop(bodies, D) /\ Log(2, Mask(D)) /\ UNCHANGED << geos, fresh >>
Used(g) == \E i \in 1..Len(bodies) : bodies[i].geo = geos[g]
Ungeo == \E D \in (SUBSET { g \in 1..Len(geos) : ~Used(g) }) \ {{}} : geos' = Drop(geos, D) /\ Log(3, Mask(D)) /\ UNCHANGED << bodies, fresh >>
Next == Len(hist) < Depth /\ (Circle \/ Body \/ Unbody \/ Ungeo)
\* every body keeps its geometry, and removal keeps the order of what remains
Shaped == \A i \in 1..Len(bodies) : \E g \in 1..Len(geos) : geos[g] = bodies[i].geo
Ordered == /\ \A i, j \in 1..Len(bodies) : i < j => bodies[i].id < bodies[j].id
           /\ \A i, j \in 1..Len(geos) : i < j => geos[i] < geos[j]
\* renumbering by counting removed predecessors finds the same geometry again (the rule World.tla uses)
Position(g) == CHOOSE k \in 1..Len(geos) : geos[k] = g
Renumbered == [][\A i \in 1..Len(bodies) : geos # geos' /\ Len(geos') < Len(geos) =>
                   LET p == CHOOSE k \in 1..Len(geos) : geos[k] = bodies[i].geo
                       q == CHOOSE k \in 1..Len(geos') : geos'[k] = bodies[i].geo
                       D == { k \in 1..Len(geos) : \A m \in 1..Len(geos') : geos'[m] # geos[k] } IN
                   q = p - Cardinality({ d \in D : d < p })]_vars
Emit == Len(hist) = Depth => PrintT("@@B " \o ToJson(hist))
=============================================================================
