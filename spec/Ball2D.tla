------------------------------- MODULE Ball2D -------------------------------
(***************************************************************************)
(* Contacts of the planar ball simulator.  A scene is                      *)
(*   [q0, q1, r, planes, drums, portals]: positions at the start of the    *)
(* step and as predicted for its end, radii, half-planes (x, n, v), drums  *)
(* (x, r) and periodic portals (two planes, shear velocity v, bounds,      *)
(* time t).                                                                *)
(***************************************************************************)
EXTENDS Portal2D

N(s) == Len(s.r)

\* smallest centre distance of two balls moving linearly over the step, less their radii
Reach(s, i, j) ==
  LET d0 == VSub(s.q0[i], s.q0[j])
      d1 == VSub(s.q1[i], s.q1[j])
      D  == VSub(d1, d0)
      DD == RDot(D, D)
      t  == IF RSign(DD) = 0 THEN 0 ELSE RMin(1, RMax(0, RDiv(RNeg(RDot(d0, D)), DD)))
  IN RSub(VNorm(VAdd(d0, VScale(t, D))), RAdd(s.r[i], s.r[j]))

Gap1(s, i, j)   == RSub(VNorm(VSub(s.q1[i], s.q1[j])), RAdd(s.r[i], s.r[j]))
\* touching counts; exact is set for integral scenes, where touching at either end of the step is decided exactly
Sq(x) == RMul(x, x)
TouchesAt(a, b, R) == RLe(VNorm2(VSub(a, b)), Sq(R))
PairMay(s, i, j, slack) == RLe(IF Len(s.portals) = 0 THEN Reach(s, i, j) ELSE Gap1(s, i, j), RMax(slack, "1e-12"))
PairMust(s, i, j, slack) ==
  LET R == RAdd(s.r[i], s.r[j]) IN
  IF RSign(slack) # 0 THEN RLe(IF Len(s.portals) = 0 THEN Reach(s, i, j) ELSE Gap1(s, i, j), RNeg(slack))
  ELSE \/ TouchesAt(s.q1[i], s.q1[j], R)
       \/ Len(s.portals) = 0 /\ (TouchesAt(s.q0[i], s.q0[j], R) \/ RLe(Reach(s, i, j), "-1e-12"))
PlaneGap(s, i, k) == RSub(PlaneDist(s.planes[k], s.q1[i]), s.r[i])
DrumGap(s, i, k)  == RSub(RSub(s.drums[k].r, s.r[i]), VNorm(VSub(s.drums[k].x, s.q1[i])))

\* the places a ball may be seen at: itself (portal 0), or its image through a portal plane it reaches
Here == [p |-> 0, side |-> "A"]
Images(s, i, slack) ==
  {Here} \cup {[p |-> k, side |-> sd] : k \in {k \in 1..Len(s.portals) : TRUE}, sd \in {"A", "B"}}
ImagesOf(s, i, slack) ==
  {im \in Images(s, i, slack) :
     im.p = 0 \/ RLe(TouchGap(s.portals[im.p], im.side, s.q1[i], s.r[i]), slack)}
Place(s, im, x) == IF im.p = 0 THEN x ELSE Through(s.portals[im.p], im.side, x)
ImGap(s, i, mi, j, mj) ==
  RSub(VNorm(VSub(Place(s, mi, s.q1[i]), Place(s, mj, s.q1[j]))), RAdd(s.r[i], s.r[j]))

\* a teleported contact of i and j through the given images (i < j), allowed / required up to slack
TeleAllowed(s, i, j, mi, mj, slack) ==
  /\ mi.p # 0 \/ mj.p # 0
  /\ mi \in ImagesOf(s, i, slack) /\ mj \in ImagesOf(s, j, slack)
  /\ RLe(ImGap(s, i, mi, j, mj), slack)
  /\ (mi.p # 0 /\ mj.p # 0) => RLe(RNeg(slack), Gap1(s, i, j))
TeleRequired(s, i, j, mi, mj, slack) == TeleAllowed(s, i, j, mi, mj, RNeg(slack)) /\
  ((mi.p # 0 /\ mj.p # 0) => RLt(slack, Gap1(s, i, j)))
TeleKick(s, mi, mj) ==
  IF mj.p # 0 /\ RSign(s.portals[mj.p].v) # 0 THEN Kick(s.portals[mj.p], mj.side)
  ELSE IF mi.p # 0 /\ RSign(s.portals[mi.p].v) # 0 THEN VNeg(Kick(s.portals[mi.p], mi.side))
  ELSE << 0, 0 >>

(* One reported contact is one the scene has *)
BallPair(s, c, tol, slack) ==
  LET i == c.s0 + 1  j == c.s1 + 1
      n == Unit(VSub(s.q0[i], s.q0[j]))
  IN /\ c.name = "ball_ball" /\ i < j /\ Indices(c, i, j, i, j) /\ c.obj = -1
     /\ PairMay(s, i, j, slack)
     /\ VClose(c.n, n, tol)
     /\ VClose(c.p, VSub(s.q0[i], VScale(s.r[i], n)), tol)
     /\ Close(c.gap, RSub(VNorm(VSub(s.q0[i], s.q0[j])), RAdd(s.r[i], s.r[j])), tol)
     /\ Close(c.depth, RMin(0, c.gap), tol)
     /\ c.ct /\ c.ca
PlaneContact(s, c, tol, slack) ==
  LET i == c.s0 + 1  k == c.obj + 1  pl == s.planes[k]
  IN /\ c.name = "static_plane_constraint" /\ Indices(c, i, 0, i, 0)
     /\ RLe(PlaneGap(s, i, k), slack)
     /\ VClose(c.n, pl.n, tol)
     /\ VClose(c.p, VSub(s.q0[i], VScale(s.r[i], pl.n)), tol)
     /\ Close(c.gap, RSub(PlaneDist(pl, s.q0[i]), s.r[i]), tol)
     /\ Close(c.depth, RMin(0, c.gap), tol)
     /\ ~c.ct /\ ~c.ca
DrumContact(s, c, tol, slack) ==
  LET i == c.s0 + 1  k == c.obj + 1
      n == Unit(VSub(s.drums[k].x, s.q0[i]))
  IN /\ c.name = "static_drum_constraint" /\ Indices(c, i, 0, i, 0)
     /\ RLe(DrumGap(s, i, k), slack)
     /\ VClose(c.n, n, tol)
     /\ VClose(c.p, VSub(s.q0[i], VScale(s.r[i], n)), tol)
     /\ ~c.ct /\ ~c.ca
TeleN(s, i, j, mi, mj) == Unit(VSub(Place(s, mi, s.q0[i]), Place(s, mj, s.q0[j])))
TeleMatch(s, c, mi, mj, tol, slack) ==
  LET i == c.s0 + 1  j == c.s1 + 1 IN
     /\ TeleAllowed(s, i, j, mi, mj, slack)
     /\ VClose(c.n, TeleN(s, i, j, mi, mj), tol)
     /\ VClose(c.knb, [k \in 1..2 |-> RNeg(RDot(TeleKick(s, mi, mj), c.basis[k]))], tol)
     /\ c.name = (IF RSign(VNorm2(TeleKick(s, mi, mj))) = 0 THEN "teleported_ball_ball" ELSE "teleported_kinematic_kick_ball_ball")
TeleContact(s, c, tol, slack) ==
  LET i == c.s0 + 1  j == c.s1 + 1
  IN /\ i < j /\ Indices(c, i, j, i, j) /\ c.obj = -1
     /\ \E mi \in ImagesOf(s, i, slack), mj \in ImagesOf(s, j, slack) : TeleMatch(s, c, mi, mj, tol, slack)
     /\ VClose(c.p, VSub(s.q0[i], VScale(s.r[i], c.n)), tol)
     /\ c.ct /\ ~c.ca

Valid(s, c, tol, slack) ==
  /\ \/ c.name = "ball_ball" /\ BallPair(s, c, tol, slack)
     \/ c.name = "static_plane_constraint" /\ PlaneContact(s, c, tol, slack)
     \/ c.name = "static_drum_constraint" /\ DrumContact(s, c, tol, slack)
     \/ c.name \in {"teleported_ball_ball", "teleported_kinematic_kick_ball_ball"} /\ TeleContact(s, c, tol, slack)
  /\ ~c.cf
IsTele(c) == c.name \in {"teleported_ball_ball", "teleported_kinematic_kick_ball_ball"}
Key(c) == << IF IsTele(c) THEN "tele" ELSE c.name, c.s0, c.s1, c.obj >>

(* Every contact of the scene is reported, once *)
Complete(s, cs, slack) ==
  LET keys == {Key(cs[k]) : k \in 1..Len(cs)}
      neg  == RNeg(slack)
  IN
  /\ Cardinality(keys) = Len(cs)
  /\ \A i \in 1..N(s) :
       /\ \A k \in 1..Len(s.planes) : RLe(PlaneGap(s, i, k), neg) => << "static_plane_constraint", i-1, -1, k-1 >> \in keys
       /\ \A k \in 1..Len(s.drums) : RLe(DrumGap(s, i, k), neg) => << "static_drum_constraint", i-1, -1, k-1 >> \in keys
       /\ \A j \in (i+1)..N(s) :
            /\ PairMust(s, i, j, slack) => << "ball_ball", i-1, j-1, -1 >> \in keys
            /\ (Len(s.portals) > 0 /\ \E mi \in ImagesOf(s, i, neg), mj \in ImagesOf(s, j, neg) : TeleRequired(s, i, j, mi, mj, slack))
                 => << "tele", i-1, j-1, -1 >> \in keys

KinVel(s, c) ==
  CASE c.name = "static_plane_constraint" -> s.planes[c.obj + 1].v
    [] IsTele(c) -> VNeg(VAdd(VScale(c.knb[1], c.basis[1]), VScale(c.knb[2], c.basis[2])))   \* judged by TeleMatch
    [] OTHER -> << 0, 0 >>
=============================================================================
