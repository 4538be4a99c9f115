------------------------------ MODULE Portal2D ------------------------------
(***************************************************************************)
(* Periodic portals of the planar simulators: a pair of planes a, b (point *)
(* x, unit normal n into the domain).  A point is carried from one plane   *)
(* to the other keeping its distance and mirroring its tangential offset;  *)
(* a Lees-Edwards portal shears with velocity v along its tangent, wrapped *)
(* into its bounds, and adds -v times the tangent of the plane crossed to  *)
(* the velocity of what crosses it.                                        *)
(***************************************************************************)
EXTENDS Contact
PlaneDist(p, x) == RDot(p.n, VSub(x, p.x))
Wrap(t, b) == IF RSign(b) = 0 THEN t ELSE RSub(t, RMul(RMul(2, b), RFloor(RDiv(RAdd(t, b), RMul(2, b)))))
Tang(p) == Perp(p.n)
Offset(portal) == Wrap(RMul(portal.v, portal.t), portal.bounds)       \* how far the portal has sheared by time t
Through(portal, side, x) ==
  LET f == IF side = "A" THEN portal.a ELSE portal.b
      g == IF side = "A" THEN portal.b ELSE portal.a
      nn == RDot(f.n, VSub(f.x, x))
      tt == Wrap(RAdd(Offset(portal), RDot(Tang(f), VSub(f.x, x))), portal.bounds)
  IN VAdd(g.x, VAdd(VScale(nn, g.n), VScale(tt, Tang(g))))
Kick(portal, side) == VScale(RNeg(portal.v), Tang(IF side = "A" THEN portal.a ELSE portal.b))
Touches(portal, side, x, r) == RLe(PlaneDist(IF side = "A" THEN portal.a ELSE portal.b, x), r)
TouchGap(portal, side, x, r) == RSub(PlaneDist(IF side = "A" THEN portal.a ELSE portal.b, x), r)

Side(portal, side) == IF side = "A" THEN portal.a ELSE portal.b
Inside(portal, side, x) == RLt(PlaneDist(Side(portal, side), x), 0)
=============================================================================
