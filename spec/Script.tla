------------------------------- MODULE Script -------------------------------
(***************************************************************************)
(* The scripting interface of the three simulators: which calls a script   *)
(* can make on a world, what each answers, how it leaves the world, and    *)
(* which calls are refused.  A world is the record the drivers write:      *)
(* bodies (positions q, velocities v, masses, shapes, who is fixed), walls *)
(* and force fields.  A call is [f, k, x]: its name, its whole numbers and *)
(* its reals.  Indices count from 0, as scripts count.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Num, Scripts
D(w) == IF w.lay = "r3" THEN 3 ELSE 2
First(s, n) == SubSeq(s, 1, n)
From(s, n) == SubSeq(s, n, Len(s))
With(s, i, x) == [s EXCEPT ![i + 1] = x]               \* entry i, counted from 0
Balls(w) == w.n
UnitV(x) == LET s == VNorm(x) IN VScale(RDiv(1, s), x)

(* ---- adding ---- *)
Round2(x) == VNorm2(x)
Weighed(geo, rho) ==                                   \* mass and moment of inertia of a shape of density rho
  IF geo.box
  THEN LET m == RMul(RMul(4, rho), RMul(geo.r[1], geo.r[2])) IN [m |-> m, I |-> RDiv(RMul(m, Round2(geo.r)), 3)]
  ELSE LET m == RMul(rho, RMul(RPi, RMul(geo.r[1], geo.r[1]))) IN [m |-> m, I |-> RDiv(RMul(m, RMul(geo.r[1], geo.r[1])), 2)]
AddedBall(w, x, fixed) ==
  [w EXCEPT !.n = @ + 1, !.q = @ \o << x[1], x[2] >>, !.v = @ \o << x[3], x[4] >>, !.r = @ \o << x[5] >>,
            !.m = @ \o << x[6] >>, !.mi = @ \o << RDiv(1, x[6]) >>, !.fixed = @ \o << fixed >>]
AddedBody(w, x, geo, fixed) ==
  LET h == Weighed(w.geos[geo + 1], x[7]) IN
  [w EXCEPT !.n = @ + 1, !.q = @ \o First(x, 3), !.v = @ \o SubSeq(x, 4, 6), !.m = @ \o << h.m >>, !.I = @ \o << h.I >>,
            !.mi = @ \o << RDiv(1, h.m), RDiv(1, h.m), RDiv(1, h.I) >>, !.fixed = @ \o << fixed >>, !.geo = @ \o << geo >>]

(* ---- taking away ---- *)
NoBodies(w, ks) ==
  LET kept == Kept(w.n, Named(ks)) IN
  [w EXCEPT !.n = Len(kept), !.q = Gathered(@, kept, 3), !.v = Gathered(@, kept, 3), !.m = Gathered(@, kept, 1), !.I = Gathered(@, kept, 1),
            !.mi = Gathered(@, kept, 3), !.fixed = Gathered(@, kept, 1), !.geo = Gathered(@, kept, 1)]
NoShapes(w, ks) ==
  [w EXCEPT !.geos = Gathered(@, Kept(Len(@), Named(ks)), 1), !.geo = [i \in 1..Len(@) |-> Shifted(@[i], Named(ks))]]
NoPlane(w, i) == [w EXCEPT !.planes = Gathered(@, Kept(Len(@), {i}), 1)]

(* ---- walls and fields ---- *)
Facing(p, x) == LET n == UnitV(x) IN [p EXCEPT !.n = n, !.t = << RNeg(n[2]), n[1] >>]
\* a cylinder's axis, and the direction its mark points after a turn by th about the axis
Marked(n, th) ==
  LET v == << n[3], 0, RNeg(n[1]) >>                   \* Y x n
      X == << 1, 0, 0 >>
      c == Cross3(v, X)
      s == VAdd(VAdd(X, c), VScale(RDiv(1, RAdd(1, n[2])), Cross3(v, c)))
  IN VAdd(VScale(RCos(th), s), VScale(RSin(th), Cross3(n, s)))
Turned(y, x) == LET n == First(x, 3) IN [y EXCEPT !.n = n, !.side = Marked(n, x[4])]

(* ---- the world a call leaves ---- *)
After(w, f, k, x) ==
  CASE f = "configuration[]" -> [w EXCEPT !.q = With(@, k[1], x[1])]
    [] f = "velocity[]" -> [w EXCEPT !.v = With(@, k[1], x[1])]
    [] f = "insertBall" -> AddedBall(w, x, k[1] = 1)
    [] f = "addCircleGeometry" -> [w EXCEPT !.geos = @ \o << [box |-> FALSE, r |-> << x[1], "0x0p+0" >>] >>]
    [] f = "addBody" -> AddedBody(w, x, k[1], k[2] = 1)
    [] f = "delete_bodies" -> NoBodies(w, k)
    [] f = "delete_geometry" -> NoShapes(w, k)
    [] f = "deleteStaticPlane" -> NoPlane(w, k[1])
    [] f = "setStaticPlanePosition" -> [w EXCEPT !.planes = With(@, k[1], [@[k[1] + 1] EXCEPT !.x = x])]
    [] f = "setStaticPlaneVelocity" -> [w EXCEPT !.planes = With(@, k[1], [@[k[1] + 1] EXCEPT !.v = x])]
    [] f = "setStaticPlaneNormal" -> [w EXCEPT !.planes = With(@, k[1], Facing(@[k[1] + 1], x))]
    [] f = "setStaticPlaneAngularVelocity" -> [w EXCEPT !.planes = With(@, k[1], [@[k[1] + 1] EXCEPT !.w = x[1]])]
    [] f = "setStaticCylinderAngularVelocity" -> [w EXCEPT !.cyls = With(@, k[1], [@[k[1] + 1] EXCEPT !.w = x])]
    [] f = "setStaticCylinderOrientation" -> [w EXCEPT !.cyls = With(@, k[1], Turned(@[k[1] + 1], x))]
    [] f = "setGravityForce" -> [w EXCEPT !.pulls = With(@, k[1], [@[k[1] + 1] EXCEPT !.g = x])]
    [] OTHER -> w

(* ---- what a question is answered; c: the step being taken, and the contacts and coefficients at hand ---- *)
Nothing == [rk |-> << >>, rx |-> << >>, rs |-> ""]
Whole(n) == [Nothing EXCEPT !.rk = << n >>]
Reals(s) == [Nothing EXCEPT !.rx = s]
Word(s) == [Nothing EXCEPT !.rs = s]
Answer(w, c, f, k) ==
  CASE f = "timestep" -> Reals(<< c.dt >>)
    [] f = "nextIteration" -> Whole(c.it)
    [] f = "numStaticPlanes" -> Whole(Len(w.planes))
    [] f = "numStaticCylinders" -> Whole(Len(w.cyls))
    [] f = "numForces" -> Whole(Len(w.pulls))
    [] f = "forceType" -> Word(w.pulls[k[1] + 1].s)
    [] f = "configuration" -> Reals(w.q)
    [] f = "velocity" -> Reals(w.v)
    [] f = "num_bodies" -> Whole(w.n)
    [] f \in {"num_geometry", "numGeometryInstances"} -> Whole(Len(w.geos))
    [] f = "numCollisions" -> Whole(Len(c.con))
    [] f = "collisionType" -> Word(c.con[k[1] + 1].s)
    [] f = "collisionIndices" -> [Nothing EXCEPT !.rk = << c.con[k[1] + 1].i, c.con[k[1] + 1].j >>]
    [] f \in {"mu", "cor"} -> Reals(c.x)
    [] OTHER -> Nothing

(* ---- which calls are refused ---- *)
In(i, n) == 0 <= i /\ i < n
Positive(x) == RSign(x) > 0
Flag(i) == i \in {0, 1}
Fits(w, nc, f, k, x) ==
  CASE f = "raise" -> FALSE                            \* an error of the script's own
    [] f = "load" -> TRUE
    [] f \in {"collisionType", "collisionIndices"} -> In(k[1], nc)
    [] f \in {"setStaticPlanePosition", "setStaticPlaneVelocity", "setStaticPlaneNormal", "setStaticPlaneAngularVelocity", "deleteStaticPlane"} -> In(k[1], Len(w.planes))
    [] f = "insertBall" -> Positive(x[5]) /\ Positive(x[6]) /\ Flag(k[1])
    [] f = "addCircleGeometry" -> Positive(x[1])
    [] f = "addBody" -> In(k[1], Len(w.geos)) /\ Flag(k[2]) /\ Positive(x[7])
    [] f = "delete_bodies" -> \A i \in Named(k) : In(i, w.n)
    [] f = "delete_geometry" -> \A i \in Named(k) : In(i, Len(w.geos)) /\ ~ Used(w.geo, i)
    [] f = "setStaticCylinderAngularVelocity" -> In(k[1], Len(w.cyls))
    [] f = "setStaticCylinderOrientation" -> In(k[1], Len(w.cyls)) /\ Close(VNorm(First(x, 3)), 1, "1e-6")
    [] f \in {"setGravityForce", "forceType"} -> In(k[1], Len(w.pulls))
\* how the arguments are given: as documented; with one missing; or indices not as a flat array of 32-bit counts;
\* and for loading a script: one that is not there, fails when loaded, or defines a callback that cannot be called
Acceptable(w, nc, f, k, x, how) == how = "plain" /\ Fits(w, nc, f, k, x)

(* ---- the same world: what is copied exactly, what is computed to rounding ---- *)
Near(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : LET s == RMax(RAbs(a[i]), RAbs(b[i])) IN RLe(RAbs(RSub(a[i], b[i])), RMul("1e-12", s))
Beside(a, b) == VClose(a, b, "1e-12")
Same2(a, b) == a.n = b.n /\ a.q = b.q /\ a.v = b.v /\ a.fixed = b.fixed /\ Near(a.m, b.m) /\ Near(a.mi, b.mi) /\ Len(a.planes) = Len(b.planes)
SameWall2(p, o) == p.x = o.x /\ p.v = o.v /\ Beside(p.n, o.n) /\ Beside(p.t, o.t)
SameAs(a, b) ==
  CASE a.lay = "b2" -> /\ Same2(a, b) /\ a.r = b.r /\ a.drums = b.drums
                       /\ \A i \in 1..Len(a.planes) : SameWall2(a.planes[i], b.planes[i])
    [] a.lay = "r2" -> /\ Same2(a, b) /\ Near(a.I, b.I) /\ a.geo = b.geo /\ a.geos = b.geos
                       /\ \A i \in 1..Len(a.planes) : SameWall2(a.planes[i], b.planes[i]) /\ a.planes[i].w = b.planes[i].w
    [] a.lay = "r3" -> /\ a.n = b.n /\ a.q = b.q /\ a.v = b.v /\ a.fixed = b.fixed /\ a.planes = b.planes
                       /\ Len(a.cyls) = Len(b.cyls)
                       /\ \A i \in 1..Len(a.cyls) : LET y == a.cyls[i]  z == b.cyls[i] IN y.x = z.x /\ y.v = z.v /\ y.w = z.w /\ y.r = z.r /\ Beside(y.n, z.n) /\ Beside(y.side, z.side)
                       /\ Len(a.pulls) = Len(b.pulls)
                       /\ \A i \in 1..Len(a.pulls) : a.pulls[i].s = b.pulls[i].s /\ (a.n > 0 => Beside(a.pulls[i].g, b.pulls[i].g))
=============================================================================
