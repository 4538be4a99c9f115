----------------------------- MODULE Ball2DEnum -----------------------------
(* Every motion of two balls between integer points of a small square, with *)
(* and without a wall and a drum: the scenes where touching is exact.       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Lo, Hi, Radii, Ends
C == Lo..Hi
EndsQuick == {<<0, 0>>}
EndsDeep == {<<0, 0>>, <<2, 1>>, <<-1, 2>>}
MinusTwo == -2
MinusThree == -3
VARIABLES sc, done
Init == /\ done = FALSE
        /\ \E x0 \in C, y0 \in C, x1 \in C, y1 \in C, e \in Ends, r \in Radii, p \in {0, 1} :
             /\ << x0, y0 >> # << 0, 0 >>
             /\ sc = << 0, 0, e[1], e[2], x0, y0, x1, y1, 1, r, p, p >>
Next == done = FALSE /\ done' = TRUE /\ sc' = sc
Emit == done => PrintT("@@B " \o ToJson(sc))
=============================================================================
