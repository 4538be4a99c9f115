------------------------------ MODULE PortalMC ------------------------------
(***************************************************************************)
(* The portal rules themselves: a body hops about a cell of half width H   *)
(* by at most one cell, portals on both axes, the second one shearing.     *)
(* Whatever the history, the body is in the cell after each step, going    *)
(* through a plane and back through its partner is the identity, and the   *)
(* velocity added on the way out is taken off on the way back.             *)
(***************************************************************************)
EXTENDS Step, TLC
CONSTANTS H, V, MaxT
VARIABLES x, y, t
P(axis, v) == LET e == IF axis = 1 THEN << 1, 0 >> ELSE << 0, 1 >> IN
  [a |-> [x |-> << -H * e[1], -H * e[2] >>, n |-> e], b |-> [x |-> << H * e[1], H * e[2] >>, n |-> << -e[1], -e[2] >>],
   v |-> v, bounds |-> IF v = 0 THEN 0 ELSE H, t |-> t]
Ps(s) == << [P(1, 0) EXCEPT !.t = s], [P(2, V) EXCEPT !.t = s] >>
Init == x = 0 /\ y = 0 /\ t = 0
Hop == \E dx \in {-H, -1, 0, 1, H}, dy \in {-H, -1, 0, 1, H} :
  /\ t < MaxT /\ t' = t + 1
  /\ LET c == Carry("b2", Ps(t + 1), 2, << x + dx, y + dy >>, TRUE) IN
     x' = RToInt(c.x[1]) /\ y' = RToInt(c.x[2])
Next == Hop
InCell == x \in (-H)..H /\ y \in (-H)..H
Flip(s) == IF s = "A" THEN "B" ELSE "A"
\* for the shearing portal the return may come out a whole period along the plane
Back == \A k \in {1, 2}, s \in {"A", "B"}, off \in 1..H :
  LET p == Ps(t)[k]
      f == IF s = "A" THEN p.a ELSE p.b
      z == VSub(IF k = 1 THEN << f.x[1], y >> ELSE << x, f.x[2] >>, VScale(off, f.n))
      w == Through(p, s, Through(p, s, z))
      u == Through(p, Flip(s), Through(p, s, z))
      d == VSub(u, z)
  IN /\ REq(RAbs(PlaneDist(IF s = "A" THEN p.b ELSE p.a, Through(p, s, z))), off)
     /\ RSign(RDot(d, f.n)) = 0
     /\ RSign(Wrap(RDot(d, Tang(f)), p.bounds)) = 0
     /\ VEq(VAdd(Kick(p, s), Kick(p, Flip(s))), << 0, 0 >>)
=============================================================================
