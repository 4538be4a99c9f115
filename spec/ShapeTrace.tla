----------------------------- MODULE ShapeTrace -----------------------------
(* Mass properties, extents, copies and distance fields of real shapes. *)
EXTENDS TraceBase, Shape
Tol == "1e-10"
Near(a, b) == RLe(VInf(VSub(a, b)), RMul(Tol, VInf(b)))          \* relative to the size of the expected vector
NearP(a, b, s) == RLe(VInf(VSub(a, b)), RMul(Tol, RAdd(s, VInf(b))))
Init == l = 1
\* mass, centre, inertia and frame of a solid of the given density; a copy reports the same
Mass(ev) ==
  LET p == TLCEval(Solid(ev.s)) IN
  /\ Near(<< ev.m >>, << RMul(ev.rho, p.m) >>) /\ Near(ev.I, VScale(ev.rho, p.I))
  /\ (ev.s.kind \notin { "circle", "box2" } => /\ VClose(ev.R0, << 1, 0, 0, 0, 1, 0, 0, 0, 1 >>, Tol)
                                               /\ VClose(ev.cm, IF ev.s.kind = "staple" THEN << 0, Rise(ev.s), 0 >> ELSE << 0, 0, 0 >>, Tol))
  /\ ("vol" \in DOMAIN ev => Near(<< ev.vol >>, << p.m >>))
  /\ ev.same
Solids == IsEvent("mass") /\ Holds(Mass(Ev))
Box(ev) == LET b == TLCEval(Bounds(ev.s, ev.x, ev.R)) IN VClose(ev.lo, b.lo, Tol) /\ VClose(ev.hi, b.hi, Tol)
Boxes == IsEvent("box") /\ Holds(Box(Ev))
\* the box used to look for collisions over a step covers the end position and nothing beyond the swept boxes
Sweep(ev) ==
  LET a == TLCEval(Bounds(ev.s, ev.x, ev.R))  b == TLCEval(Bounds(ev.s, ev.y, ev.Q)) IN
  \A i \in 1..2 : /\ RLe(ev.lo[i], RAdd(b.lo[i], Tol)) /\ RLe(RSub(b.hi[i], Tol), ev.hi[i])
                  /\ RLe(RSub(RMin(a.lo[i], b.lo[i]), Tol), ev.lo[i]) /\ RLe(ev.hi[i], RAdd(RMax(a.hi[i], b.hi[i]), Tol))
Sweeps == IsEvent("sweep") /\ Holds(Sweep(Ev))
\* principal moments (in ascending order) and axes of a closed triangulated surface
Moments(ev) ==
  LET T == TLCEval(Tensor(ev.s))
      c(k) == << ev.R0[k], ev.R0[k + 3], ev.R0[k + 6] >>
      size == TLCEval(RAdd(VInf(T.I[1]), RAdd(VInf(T.I[2]), RAdd(VInf(T.I[3]), RMul(T.V, VNorm2(T.c)))))) IN
  /\ NearP(<< ev.m >>, << T.V >>, 0) /\ VClose(ev.cm, T.c, "1e-9")
  /\ RLe(ev.I[1], ev.I[2]) /\ RLe(ev.I[2], ev.I[3]) /\ RSign(ev.I[1]) = 1
  /\ VClose(Cross3(c(1), c(2)), c(3), "1e-9") /\ Close(VNorm2(c(1)), 1, "1e-9") /\ Close(VNorm2(c(2)), 1, "1e-9") /\ Close(RDot(c(1), c(2)), 0, "1e-9")
  /\ \A k \in 1..3 : RLe(VInf(VSub(<< RDot(T.I[1], c(k)), RDot(T.I[2], c(k)), RDot(T.I[3], c(k)) >>, VScale(ev.I[k], c(k)))), RMul("1e-9", size))
Surfaces == IsEvent("moments") /\ Holds(Moments(Ev))
\* a point is inside when the interpolated distance is not positive; the normal is the direction of steepest ascent
Inside(f, x) == \A a \in 1..3 : RLe(f.o[a], x[a]) /\ RLe(x[a], RAdd(f.o[a], RMul(f.h[a], f.dims[a] - 1)))
Ask(f, q) ==
  IF ~ Inside(f, q.x) THEN q.in = FALSE
  ELSE LET F == TLCEval(Field(f, q.x)) IN
       /\ (IF RLe(RAbs(F.d), "1e-12") THEN TRUE ELSE q.in = (RSign(F.d) # 1))
       /\ (q.in => /\ VFinite(q.n) /\ Close(VNorm(q.n), 1, "1e-9")
                   /\ (IF F.edge \/ RLt(VNorm(F.n), "1e-6") THEN TRUE ELSE VClose(VScale(VNorm(F.n), q.n), F.n, "1e-8")))
Fields == IsEvent("field") /\ Holds(\A k \in 1..Len(Ev.q) : Ask(Ev.f, Ev.q[k]))
Next == l' = l + 1 /\ (Solids \/ Boxes \/ Sweeps \/ Surfaces \/ Fields)
=============================================================================
