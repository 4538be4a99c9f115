----------------------------- MODULE Rigid2DEnum -----------------------------
(* Every placement, on an integer grid, of an axis-aligned body next to one   *)
(* at the origin: the scenes where touching is decided exactly.               *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Hi
C == (-Hi)..Hi
VARIABLES sc, done
Init == /\ done = FALSE
        /\ \E x \in C, y \in C, a \in {0, 1}, b \in {0, 1}, t \in {0, 1}, p \in {0, 1}, f \in {0, 1} :
             /\ << x, y >> # << 0, 0 >>
             /\ b = 0 => t = 0
             /\ a = 1 => f = 0                  \* scripted bodies are supported against circles only
             /\ sc = << x, y, a, b, t, p, f >>
Next == done = FALSE /\ done' = TRUE /\ sc' = sc
Emit == done => PrintT("@@B " \o ToJson(sc))
=============================================================================
