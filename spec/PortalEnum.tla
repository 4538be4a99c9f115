----------------------------- MODULE PortalEnum -----------------------------
(* Every lattice position a body can be proposed in around a cell of half     *)
(* width 2, every arrangement of one or two portals, shear and iteration.     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Hi, MaxIt
VARIABLES sc, done
Init == /\ done = FALSE
        /\ \E x \in (-Hi)..Hi, y \in (-Hi)..Hi, ps \in 1..4, v \in {0, 2, -3, 8}, it \in 1..MaxIt :
             sc = << x, y, ps, v, it >>
Next == done = FALSE /\ done' = TRUE /\ sc' = sc
Emit == done => PrintT("@@B " \o ToJson(sc))
=============================================================================
