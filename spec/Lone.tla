-------------------------------- MODULE Lone --------------------------------
(***************************************************************************)
(* The one-contact law, in closed form.  A round body whose only contact   *)
(* is with a wall, a fixed body, or another round body without any other   *)
(* contact, leaves a step with exactly the velocity that Newton's and      *)
(* Coulomb's laws give: along the normal it leaves with the restitution    *)
(* times the approach; across it sticks when friction can hold it, and     *)
(* otherwise is slowed by mu times the normal impulse, against the slip.   *)
(* Everything is derived from the bodies and the wall; of the contacts     *)
(* only who touches whom is recorded.                                      *)
(***************************************************************************)
EXTENDS Whole, FiniteSets
UnitOf(x) == LET s == VNorm(x) IN VScale(RDiv(1, s), x)
Nil(w) == [a \in 1..Dim(w) |-> RMul(0, 1)]
\* velocity at arm a of a body moving at x, turning at s
AtArm(w, x, s, a) ==
  IF w.lay = "b2" THEN x ELSE IF w.lay = "r2" THEN << RSub(x[1], RMul(s, a[2])), RAdd(x[2], RMul(s, a[1])) >>
  ELSE VAdd(x, Cross3(s, a))
Axial(wl, x) == VSub(VSub(x, wl.x), VScale(RDot(wl.n, VSub(x, wl.x)), wl.n))
(* the wall: its normal at a body, how far the body is from it, and its own velocity where they touch *)
WallNormal(w, x) ==
  CASE w.wall.kind = "plane" -> w.wall.n
    [] w.wall.kind = "drum"  -> UnitOf(VSub(w.wall.x, x))
    [] w.wall.kind = "cyl"   -> VNeg(UnitOf(Axial(w.wall, x)))
WallGap(w, x, r) ==
  CASE w.wall.kind = "plane" -> RSub(RDot(w.wall.n, VSub(x, w.wall.x)), r)
    [] w.wall.kind = "drum"  -> RSub(RSub(w.wall.r, r), VNorm(VSub(x, w.wall.x)))
    [] w.wall.kind = "cyl"   -> RSub(RSub(w.wall.r, r), VNorm(Axial(w.wall, x)))
WallVel(w, x, r) ==
  IF w.lay = "b2" THEN w.wall.v
  ELSE IF w.lay = "r2" THEN AtArm(w, w.wall.v, w.wall.w, VSub(VSub(x, VScale(r, w.wall.n)), w.wall.x))
  ELSE IF w.wall.kind = "plane" THEN AtArm(w, w.wall.v, w.wall.w, VSub(VSub(x, VScale(RDot(w.wall.n, VSub(x, w.wall.x)), w.wall.n)), w.wall.x))
  ELSE AtArm(w, w.wall.v, w.wall.w, VAdd(VScale(RDot(w.wall.n, VSub(x, w.wall.x)), w.wall.n), VScale(w.wall.r, UnitOf(Axial(w.wall, x)))))

(* contact c = [i, j, o]: body i, loose body j or 0, fixed body o or 0 *)
Meet(w, q, v, c) ==
  LET xi == Pos(w, q, c.i) IN
  IF c.j > 0 THEN
    LET d == VSub(xi, Pos(w, q, c.j))  s == RAdd(w.r[c.i], w.r[c.j]) IN
    [n |-> UnitOf(d), a |-> VScale(RNeg(RDiv(w.r[c.i], s)), d), b |-> VScale(RDiv(w.r[c.j], s), d), kin |-> Nil(w)]
  ELSE IF c.o > 0 THEN
    LET xo == Pos(w, q, c.o)  n == UnitOf(VSub(xi, xo))  a == VScale(RNeg(w.r[c.i]), n) IN
    [n |-> n, a |-> a, b |-> Nil(w), kin |-> IF w.lay = "r2" THEN AtArm(w, Vel(w, v, c.o), Spin(w, v, c.o), VSub(VAdd(xi, a), xo)) ELSE Nil(w)]
  ELSE LET n == WallNormal(w, xi) IN [n |-> n, a |-> VScale(RNeg(w.r[c.i]), n), b |-> Nil(w), kin |-> WallVel(w, xi, w.r[c.i])]
Round(w, i) == IF w.lay = "b2" THEN 0 ELSE RDiv(1, IF w.lay = "r2" THEN w.I[i] ELSE w.I[i][1])
SpinNil(w) == IF w.lay = "r3" THEN Nil(w) ELSE RMul(0, 1)
SpinAt(w, v, i) == IF w.lay = "b2" THEN SpinNil(w) ELSE Spin(w, v, i)
\* impulse on body i of contact c, met as m, from the velocities (li, si), (lj, sj)
Impulse(w, c, m, li, si, lj, sj) ==
  LET rel == TLCEval(VSub(AtArm(w, li, si, m.a), IF c.j > 0 THEN AtArm(w, lj, sj, m.b) ELSE m.kin))
      vn == RDot(m.n, rel)
      s  == VSub(rel, VScale(vn, m.n))
      wn == RAdd(RDiv(1, w.m[c.i]), IF c.j > 0 THEN RDiv(1, w.m[c.j]) ELSE 0)
      wt == RAdd(wn, RAdd(RMul(RDot(m.a, m.a), Round(w, c.i)), IF c.j > 0 THEN RMul(RDot(m.b, m.b), Round(w, c.j)) ELSE 0))
      rn == IF RSign(vn) < 0 THEN RDiv(RMul(RAdd(1, w.cor), RNeg(vn)), wn) ELSE RMul(0, 1)
      z  == VNorm(s)
      hold == RDiv(z, wt)
      rt == IF RSign(w.mu) = 0 \/ RSign(z) = 0 THEN Nil(w) ELSE VScale(RNeg(RDiv(RMin(hold, RMul(w.mu, rn)), z)), s)
  IN VAdd(VScale(rn, m.n), rt)
Twist(w, a, p) == IF w.lay = "b2" THEN RMul(0, 1) ELSE IF w.lay = "r2" THEN Cross2(a, p) ELSE Cross3(a, p)
SpinAdd(w, s, k, t) == IF w.lay = "r3" THEN VAdd(s, VScale(k, t)) ELSE RAdd(s, RMul(k, t))
PushFirst(w) == w.map \in {"stabilized", "symplectic"}       \* the force acts before the contact is solved
Kick(w, x) == VAdd(x, VScale(w.dt, w.g))
Start(w, v, i) == IF PushFirst(w) THEN Kick(w, Vel(w, v, i)) ELSE Vel(w, v, i)
Leave(w, x) == IF PushFirst(w) THEN x ELSE Kick(w, x)
AloneIn(cs, i) == Cardinality({k \in 1..Len(cs) : cs[k].i = i \/ cs[k].j = i}) = 1
Isolated(cs, c) == AloneIn(cs, c.i) /\ (c.j > 0 => AloneIn(cs, c.j))
SpinSame(w, a, b, tol) == IF w.lay = "b2" THEN TRUE ELSE IF w.lay = "r3" THEN VClose(a, b, tol) ELSE Close(a, b, tol)
\* the force acts first: the map moves by the new velocity itself, unless there was nothing to solve
Moved(w, hit, q, p, i, a, u, tol) ==         \* from the velocity a after the contact to the velocity u after the step
  LET x0 == Pos(w, q, i)  x1 == Pos(w, p, i) IN
  IF w.map = "symplectic" \/ (PushFirst(w) /\ hit) \/ w.umap = "symplectic_euler" THEN VClose(x1, VAdd(x0, VScale(w.dt, u)), tol)
  ELSE IF w.umap = "exponential_euler" THEN VClose(x1, VAdd(x0, VScale(w.dt, a)), tol)
  ELSE VClose(x1, VAdd(x0, VScale(RDiv(w.dt, 2), VAdd(a, u))), tol) \/ (w.lay = "r3" /\ VClose(x1, VAdd(x0, VScale(w.dt, u)), tol))
Contact1(w, c, q, v, p, u, tol) ==
  LET m == TLCEval(Meet(w, q, v, c))
      li == Start(w, v, c.i)  si == SpinAt(w, v, c.i)
      lj == IF c.j > 0 THEN Start(w, v, c.j) ELSE Nil(w)  sj == IF c.j > 0 THEN SpinAt(w, v, c.j) ELSE SpinNil(w)
      r  == TLCEval(Impulse(w, c, m, li, si, lj, sj))
      ai == VAdd(li, VScale(RDiv(1, w.m[c.i]), r))
      aj == IF c.j > 0 THEN VSub(lj, VScale(RDiv(1, w.m[c.j]), r)) ELSE lj
  IN /\ VClose(Vel(w, u, c.i), Leave(w, ai), tol)
     /\ SpinSame(w, SpinAt(w, u, c.i), SpinAdd(w, si, Round(w, c.i), Twist(w, m.a, r)), tol)
     /\ Moved(w, TRUE, q, p, c.i, ai, Vel(w, u, c.i), tol)
     /\ c.j > 0 => /\ VClose(Vel(w, u, c.j), Leave(w, aj), tol)
                   /\ SpinSame(w, SpinAt(w, u, c.j), SpinAdd(w, sj, Round(w, c.j), Twist(w, m.b, VNeg(r))), tol)
                   /\ Moved(w, TRUE, q, p, c.j, aj, Vel(w, u, c.j), tol)
(* a box with one corner on the wall: any impulse at a corner that the laws allow *)
IsBox(w, i) == w.lay = "r2" /\ w.box[i].is
BoxPoints(w, q, i) == LET th == q[3 * i]  h == w.box[i].h IN
  {LET a == << RMul(x, h[1]), RMul(y, h[2]) >> IN << RSub(RMul(RCos(th), a[1]), RMul(RSin(th), a[2])), RAdd(RMul(RSin(th), a[1]), RMul(RCos(th), a[2])) >> : x \in {-1, 1}, y \in {-1, 1}}
Allowed(w, n, e, r, old, new, tol) ==        \* impulse r along n and across, relative velocity before and after
  LET rn == RDot(n, r)  rt == VSub(r, VScale(rn, n))  gone == RAdd(RDot(n, new), RMul(e, RDot(n, old)))  s == VSub(new, VScale(RDot(n, new), n)) IN
  /\ RLe(RNeg(tol), rn) /\ RLe(RNeg(tol), gone) /\ (RLe(rn, tol) \/ RLe(gone, tol))
  /\ RLe(VNorm(rt), RAdd(RMul(w.mu, rn), tol))
  /\ RLe(VNorm(s), tol) \/ RLe(VNorm(VAdd(VScale(VNorm(s), rt), VScale(RMul(w.mu, rn), s))), RMul(tol, RAdd(1, VNorm(s))))
Corner(w, c, q, v, p, u, tol) ==
  LET i == c.i  x == Pos(w, q, i)  l0 == Start(w, v, i)  l1 == IF PushFirst(w) THEN Vel(w, u, i) ELSE VSub(Vel(w, u, i), VScale(w.dt, w.g))
      r == VScale(w.m[i], VSub(l1, l0)) IN
  /\ Moved(w, TRUE, q, p, i, l1, Vel(w, u, i), tol)
  /\ \E a \in BoxPoints(w, q, i) :
       /\ Close(RMul(w.I[i], RSub(u[3 * i], v[3 * i])), Cross2(a, r), tol)
       /\ LET kin == AtArm(w, w.wall.v, w.wall.w, VSub(VAdd(x, a), w.wall.x)) IN
          Allowed(w, w.wall.n, w.cor, r, VSub(AtArm(w, l0, v[3 * i], a), kin), VSub(AtArm(w, l1, u[3 * i], a), kin), RMul(tol, 100))
Law(w, s, q, v, p, u, tol) == s.ok => \A k \in 1..Len(s.cs) : Isolated(s.cs, s.cs[k]) => IF IsBox(w, s.cs[k].i) THEN Corner(w, s.cs[k], q, v, p, u, tol) ELSE Contact1(w, s.cs[k], q, v, p, u, tol)
Unmet(w, s, q, v, p, u, tol) ==
  \A i \in 1..w.n : ~ w.fixed[i] /\ (\A k \in 1..Len(s.cs) : s.cs[k].i # i /\ s.cs[k].j # i) =>
    /\ VClose(Vel(w, u, i), Kick(w, Vel(w, v, i)), tol) /\ SpinSame(w, SpinAt(w, u, i), SpinAt(w, v, i), tol)
    /\ Moved(w, s.cs # << >>, q, p, i, Vel(w, v, i), Vel(w, u, i), tol)
\* overlapping where the step begins and, moving freely, where it ends: the contact must have been found
Deep == "-1e-6"
AfterFree(w, q, v, i, k) == VAdd(Pos(w, q, i), VAdd(VScale(w.dt, Vel(w, v, i)), VScale(RDiv(RMul(k, RMul(w.dt, w.dt)), 2), w.g)))
Found(w, s, q, v) ==
  \A i \in 1..w.n : ~ w.fixed[i] /\ ~ IsBox(w, i) =>
    /\ w.wall.kind # "none" /\ RLt(WallGap(w, Pos(w, q, i), w.r[i]), Deep) /\ (\A k \in 0..2 : RLt(WallGap(w, AfterFree(w, q, v, i, k), w.r[i]), Deep))
         => \E k \in 1..Len(s.cs) : s.cs[k].i = i /\ s.cs[k].j = 0 /\ s.cs[k].o = 0
    /\ \A j \in 1..w.n : i # j /\ (w.fixed[j] \/ i < j)
         /\ RLt(RSub(VNorm(VSub(Pos(w, q, i), Pos(w, q, j))), RAdd(w.r[i], w.r[j])), Deep)
         /\ (\A k \in 0..2 : RLt(RSub(VNorm(VSub(AfterFree(w, q, v, i, k), IF w.fixed[j] THEN Pos(w, q, j) ELSE AfterFree(w, q, v, j, k))), RAdd(w.r[i], w.r[j])), Deep))
         /\ (w.fixed[j] => VInf(Vel(w, v, j)) = RMul(0, 1))
         => \E k \in 1..Len(s.cs) : IF w.fixed[j] THEN s.cs[k].i = i /\ s.cs[k].o = j ELSE {s.cs[k].i, s.cs[k].j} = {i, j}
=============================================================================
