-------------------------------- MODULE Scene --------------------------------
(***************************************************************************)
(* Scene files: which documents are legal, and the world and the settings  *)
(* a legal one describes.  A document is a sequence of elements            *)
(* [t |-> tag, a |-> attributes, c |-> children]; an attribute is [w |->   *)
(* its text, v |-> the numbers it lists, i |-> those numbers as integers,  *)
(* q |-> the fraction it denotes when it is a step size].  lay is "b2",    *)
(* "r2" or "r3".                                                           *)
(***************************************************************************)
EXTENDS Num, Sequences, FiniteSets, TLC
STol == "1e-11"
(* ------------------------------- the grammar ---------------------------- *)
\* attribute types: R real, P and L positive (L: zero is left open), N not negative, U within [0,1], B flag, Q step size, K count,
\* C positive count, V real vector, Z nonzero vector, A vector of positives, S vector of signs,
\* plane/shape/cyl an index, T text, and a set of words
Words == [b2int |-> { "verlet", "symplectic_euler" }, r3int |-> { "split_ham", "dmv", "exponential_euler" },
          cache |-> { "none", "normal", "normal_and_friction" }, stag2 |-> { "geometric", "stabilized" }, stag |-> { "geometric", "stabilized", "symplectic_euler" },
          view |-> { "xy", "zy", "zx" }, edge |-> { "none", "exit" }, shape2 |-> { "circle", "box" }, shape3 |-> { "sphere", "box", "staple" },
          op |-> { "gauss_seidel", "jacobi", "lcp", "gr", "grr" }, lcp |-> { "apgd" }]
Cam == << << "fps", "C" >>, << "render_at_fps", "B" >>, << "locked", "B" >> >>
Has(e, a) == a \in DOMAIN e.a
Word(e, a) == IF Has(e, a) THEN e.a[a].w ELSE ""
Operator == << << "type", "op" >>, << "v_tol", "N" >> >>
Sob(lay) == << << "mu", "N" >>, << "CoR", "U" >>, << "max_iters", "C" >>, << "eval_every", "C" >>, << "tol", "N" >>, << "staggering", IF lay = "r2" THEN "stag2" ELSE "stag" >>, << "cache_impulses", "cache" >> >>
           \o (IF lay = "r2" THEN << >> ELSE << << "stabilization", "B" >>, << "penetration_threshold", "N" >> >>)
Tags == [all |-> { "end_time", "scripting", "impact_operator", "elastic_operator", "inelastic_operator", "sobogus_friction_solver", "integrator", "static_plane", "planar_portal" },
         b2 |-> { "ball", "static_drum", "gravity", "penalty", "camera", "lees_edwards_portal", "solver" },
         r2 |-> { "geometry", "rigid_body", "near_earth_gravity", "camera", "lees_edwards_portal" },
         r3 |-> { "geometry", "rigid_body_with_density", "near_earth_gravity", "static_cylinder", "static_plane_renderer", "static_cylinder_renderer", "camera_perspective", "camera_orthographic", "simulation_boundary" }]
Known(lay) == Tags.all \cup Tags[lay]
\* every attribute an element of this tag may carry, with its type; << name, type, length >> for vectors
Grammar(lay, t) ==
  LET d == IF lay = "r3" THEN 3 ELSE 2 IN
  CASE t = "end_time" -> << << "t", "P" >> >>
    [] t = "scripting" -> << << "callback", "T" >> >>
    [] t = "integrator" -> << << "type", IF lay = "r3" THEN "r3int" ELSE "b2int" >>, << "dt", "Q" >> >>
    [] t = "impact_operator" -> Operator \o << << "CoR", "U" >> >> \o (IF lay = "r3" THEN << >> ELSE << << "cache_impulses", "B" >> >>)
    [] t \in { "elastic_operator", "inelastic_operator" } -> Operator
    [] t = "solver" -> << << "name", "lcp" >>, << "tol", "P" >>, << "max_iters", "K" >> >>
    [] t = "sobogus_friction_solver" -> Sob(lay)
    [] t = "static_plane" -> << << "x", "V", d >>, << "n", "Z", d >> >>
    [] t = "planar_portal" -> << << "planeA", "plane" >>, << "planeB", "plane" >> >> \o (IF lay = "r3" THEN << << "multiplier", "S", 3 >> >> ELSE << >>)
    [] t = "lees_edwards_portal" -> << << "planeA", "plane" >>, << "planeB", "plane" >>, << "v", "R" >>, << "bounds", "L" >> >>
    [] t = "ball" -> << << "x", "R" >>, << "y", "R" >>, << "vx", "R" >>, << "vy", "R" >>, << "m", "P" >>, << "r", "P" >>, << "fixed", "B" >> >>
    [] t = "static_drum" -> << << "x", "R" >>, << "y", "R" >>, << "r", "P" >> >>
    [] t = "gravity" -> << << "fx", "R" >>, << "fy", "R" >> >>
    [] t = "penalty" -> << << "stiffness", "L" >>, << "potential_power", "R" >> >>
    [] t = "camera" -> (IF lay = "b2" THEN << << "cx", "R" >>, << "cy", "R" >>, << "scale_factor", "R" >>, << "fps", "K" >>, << "render_at_fps", "B" >>, << "locked", "B" >> >>
                        ELSE << << "center", "V", 2 >>, << "scale", "P" >> >> \o Cam)
    [] t = "geometry" -> (IF lay = "r2" THEN << << "type", "shape2" >>, << "r", "A", 2 >> >> ELSE << << "type", "shape3" >>, << "r", "A", 3 >>, << "w", "P" >>, << "l", "P" >>, << "D", "P" >> >>)
    [] t = "rigid_body" -> << << "x", "V", 2 >>, << "theta", "R" >>, << "v", "V", 2 >>, << "omega", "R" >>, << "rho", "P" >>, << "geo_idx", "shape" >>, << "fixed", "B" >> >>
    [] t = "near_earth_gravity" -> << << "f", "V", d >> >>
    [] t = "rigid_body_with_density" -> << << "x", "V", 3 >>, << "v", "V", 3 >>, << "omega", "V", 3 >>, << "rho", "P" >>, << "fixed", "B" >>, << "geo_idx", "shape" >>, << "R", "V", 3 >> >>
    [] t = "static_cylinder" -> << << "x", "V", 3 >>, << "axis", "Z", 3 >>, << "R", "P" >> >>
    [] t = "static_plane_renderer" -> << << "plane", "plane" >>, << "r", "M", 2 >> >>
    [] t = "static_cylinder_renderer" -> << << "cylinder_idx", "cyl" >>, << "L", "N" >> >>
    [] t = "camera_perspective" -> << << "theta", "R" >>, << "phi", "R" >>, << "rho", "P" >>, << "lookat", "V", 3 >>, << "up", "V", 3 >>, << "fps", "K" >>, << "render_at_fps", "B" >>, << "locked", "B" >> >>
    [] t = "camera_orthographic" -> << << "projection_plane", "view" >>, << "x", "V", 3 >>, << "scale", "P" >>, << "fps", "K" >>, << "render_at_fps", "B" >>, << "locked", "B" >> >>
    [] t = "simulation_boundary" -> << << "violation_behavior", "edge" >>, << "min", "V", 3 >>, << "max", "V", 3 >> >>
\* the attributes an element has to carry
Needs(lay, e) ==
  LET all == { g[1] : g \in { Grammar(lay, e.t)[k] : k \in 1..Len(Grammar(lay, e.t)) } } IN
  CASE e.t \in { "impact_operator", "elastic_operator", "inelastic_operator" } -> IF Word(e, "type") \in { "gauss_seidel", "jacobi", "gr" } THEN all ELSE all \ { "v_tol" }
    [] e.t = "sobogus_friction_solver" -> (IF Word(e, "staggering") = "symplectic_euler" THEN all ELSE (all \ { "stabilization", "penetration_threshold" }) \ (IF lay = "r3" THEN { "cache_impulses" } ELSE {}))
    [] e.t = "rigid_body" -> all \ { "fixed" }
    [] e.t = "rigid_body_with_density" -> all \ { "R" }
    [] e.t = "geometry" /\ lay = "r3" -> IF Word(e, "type") = "staple" THEN { "type", "w", "l", "D" } ELSE { "type", "r" }
    [] OTHER -> all
(* -------------------------------- legality ------------------------------ *)
All(doc, t) == SelectSeq(doc, LAMBDA e : e.t = t)
Count(doc, t) == Len(All(doc, t))
Scalar(a) == Len(a.v) = 1
Legal1(lay, doc, e, g) ==
  LET a == e.a[g[1]]  ty == g[2]  n == Len(a.v) IN
  CASE ty = "R" -> n = 1
    [] ty \in { "P", "L" } -> IF n = 1 THEN RSign(a.v[1]) = 1 ELSE FALSE
    [] ty = "N" -> IF n = 1 THEN RSign(a.v[1]) >= 0 ELSE FALSE
    [] ty = "U" -> IF n = 1 THEN RSign(a.v[1]) >= 0 /\ RLe(a.v[1], 1) ELSE FALSE
    [] ty = "B" -> IF n = 1 THEN a.i[1] \in { 0, 1 } ELSE FALSE
    [] ty = "Q" -> IF Len(a.q) = 2 THEN a.q[1] > 0 ELSE FALSE
    [] ty = "K" -> IF n = 1 THEN a.i[1] >= 0 ELSE FALSE
    [] ty = "C" -> IF n = 1 THEN a.i[1] > 0 ELSE FALSE
    [] ty = "V" -> n = g[3]
    [] ty = "Z" -> n = g[3] /\ \E k \in 1..n : RSign(a.v[k]) # 0
    [] ty = "A" -> n = (IF Word(e, "type") \in { "circle", "sphere" } THEN 1 ELSE g[3]) /\ \A k \in 1..n : RSign(a.v[k]) = 1
    [] ty = "M" -> n = g[3] /\ \A k \in 1..n : RSign(a.v[k]) >= 0
    [] ty = "S" -> n = g[3] /\ \A k \in 1..n : a.i[k] \in { 1, -1 }
    [] ty = "plane" -> IF n = 1 THEN a.i[1] \in 0..(Count(doc, "static_plane") - 1) ELSE FALSE
    [] ty = "cyl" -> IF n = 1 THEN a.i[1] \in 0..(Count(doc, "static_cylinder") - 1) ELSE FALSE
    [] ty = "shape" -> LET c == Count(doc, "geometry") IN IF n = 1 THEN a.i[1] \in (IF lay = "r3" THEN -c ELSE 0)..(c - 1) ELSE FALSE
    [] ty = "T" -> TRUE
    [] OTHER -> a.w \in Words[ty]
\* attributes an element does not use are not read
Used(lay, e) == Needs(lay, e) \cup (CASE e.t = "rigid_body" -> { "fixed" } [] e.t = "rigid_body_with_density" -> { "R" } [] OTHER -> {})
Kids(e, t) == All(e.c, t)
RECURSIVE LegalEl(_, _, _)
LegalEl(lay, doc, e) ==
  /\ Needs(lay, e) \subseteq DOMAIN e.a
  /\ LET gr == Grammar(lay, e.t) IN \A k \in 1..Len(gr) : (gr[k][1] \in Used(lay, e) /\ Has(e, gr[k][1])) => Legal1(lay, doc, e, gr[k])
  /\ IF e.t \in { "impact_operator", "elastic_operator", "inelastic_operator" }
     THEN CASE Word(e, "type") \in { "lcp", "gr" } -> IF lay = "b2" /\ Len(Kids(e, "solver")) > 0 THEN LegalEl(lay, doc, Kids(e, "solver")[1]) ELSE FALSE
            [] Word(e, "type") = "grr" -> IF Len(Kids(e, "elastic_operator")) > 0 /\ Len(Kids(e, "inelastic_operator")) > 0
                                          THEN LegalEl(lay, doc, Kids(e, "elastic_operator")[1]) /\ LegalEl(lay, doc, Kids(e, "inelastic_operator")[1]) ELSE FALSE
            [] OTHER -> TRUE
     ELSE IF e.t = "sobogus_friction_solver"
     THEN /\ e.a["eval_every"].i[1] <= e.a["max_iters"].i[1]
          /\ (Word(e, "staggering") = "symplectic_euler" => RSign(e.a["CoR"].v[1]) = 0)
     ELSE IF e.t = "geometry" /\ Word(e, "type") = "staple"
     THEN RLe(e.a["D"].v[1], e.a["w"].v[1]) /\ RLe(e.a["D"].v[1], e.a["l"].v[1])
     ELSE IF e.t = "simulation_boundary"
     THEN \A k \in 1..3 : RLt(e.a["min"].v[k], e.a["max"].v[k])
     ELSE TRUE
Portals(doc) == All(doc, "planar_portal") \o All(doc, "lees_edwards_portal")
Ends(doc) == LET p == Portals(doc) IN [k \in 1..(2 * Len(p)) |-> p[(k + 1) \div 2].a[IF k % 2 = 1 THEN "planeA" ELSE "planeB"].i[1]]
Legal(lay, ev) ==
  LET doc == ev.doc IN
  IF ev.form # "whole" \/ ev.root # (CASE lay = "b2" -> "ball2d_scene" [] lay = "r2" -> "rigidbody2d_scene" [] lay = "r3" -> "rigidbody3d_scene") THEN FALSE
  ELSE IF ~ (\A k \in 1..Len(doc) : (doc[k].t = "camera" /\ ~ ev.look) \/ LegalEl(lay, doc, doc[k])) THEN FALSE
  ELSE /\ (lay # "r2" => Count(doc, "integrator") > 0)
       /\ Count(doc, "impact_operator") + Count(doc, "sobogus_friction_solver") <= 1
       /\ LET x == Ends(doc) IN \A i, j \in 1..Len(x) : i # j => x[i] # x[j]
(* --------------------------- what it describes -------------------------- *)
V1(e, a) == e.a[a].v[1]
Vec(e, a) == e.a[a].v
Flag(e, a) == e.a[a].i[1] = 1
Cat(s) == LET f[k \in 0..Len(s)] == IF k = 0 THEN << >> ELSE f[k - 1] \o s[k] IN f[Len(s)]
Over(s, F(_)) == [k \in 1..Len(s) |-> F(s[k])]
Unit(n) == VScale(RDiv(1, VNorm(n)), n)
\* the planes that no portal uses, in order
Free(doc) == LET p == All(doc, "static_plane")  x == Ends(doc) IN SelectSeq([k \in 1..Len(p) |-> k], LAMBDA k : \A j \in 1..Len(x) : x[j] # k - 1)
PlaneAt(p, e) == p.x = Vec(e, "x") /\ VClose(p.n, Unit(Vec(e, "n")), STol)
Planes(doc, w) == LET p == All(doc, "static_plane")  f == Free(doc) IN Len(w.planes) = Len(f) /\ \A k \in 1..Len(f) : PlaneAt(w.planes[k], p[f[k]])
Still(p) == \A k \in 1..Len(p.v) : RSign(p.v[k]) = 0
PortalAt(doc, e, p) ==
  LET pl == All(doc, "static_plane")  A == pl[e.a["planeA"].i[1] + 1]  B == pl[e.a["planeB"].i[1] + 1] IN
  IF "a" \in DOMAIN p THEN PlaneAt(p.a, A) /\ PlaneAt(p.b, B)
  ELSE /\ p.xa = Vec(A, "x") /\ p.xb = Vec(B, "x") /\ VClose(p.na, Unit(Vec(A, "n")), STol) /\ VClose(p.nb, Unit(Vec(B, "n")), STol)
       /\ IF e.t = "lees_edwards_portal" THEN p.moving /\ REq(p.bounds, V1(e, "bounds")) /\ VClose(p.probe[7], VScale(RNeg(V1(e, "v")), Perp(p.na)), STol) ELSE ~ p.moving
\* in space a point is carried to the other plane with the signs of the multiplier on normal and tangents
Joined(doc, w) == LET e == Portals(doc) IN Len(w.portals) = Len(e) /\ \A k \in 1..Len(e) : PortalAt(doc, e[k], w.portals[k])
Diag2(A) == [k \in 1..Len(A.e) |-> A.e[k][3]]
Zero2 == << 0, 0 >>
\* x^p for a positive multiple p of 1/2
PowH(x, p) == LET n == RToInt(RMul(2, p))  f[k \in 0..n] == IF k = 0 THEN 1 ELSE RMul(f[k - 1], RSqrt(x)) IN f[n]
Balls(doc, w) ==
  LET b == All(doc, "ball") IN
  /\ w.n = Len(b) /\ w.q = Cat(Over(b, LAMBDA e : << V1(e, "x"), V1(e, "y") >>)) /\ w.v = Cat(Over(b, LAMBDA e : << V1(e, "vx"), V1(e, "vy") >>))
  /\ w.r = Over(b, LAMBDA e : V1(e, "r")) /\ w.fixed = Over(b, LAMBDA e : Flag(e, "fixed")) /\ Diag2(w.M) = Cat(Over(b, LAMBDA e : << V1(e, "m"), V1(e, "m") >>))
  /\ LET d == All(doc, "static_drum") IN w.drums = Over(d, LAMBDA e : [x |-> << V1(e, "x"), V1(e, "y") >>, r |-> V1(e, "r")])
BallForces(doc, r) ==
  LET g == All(doc, "gravity")  p == All(doc, "penalty")
      G == << RSumSeq(Over(g, LAMBDA e : V1(e, "fx"))), RSumSeq(Over(g, LAMBDA e : V1(e, "fy"))) >>
      Push == RSumSeq(Over(p, LAMBDA e : RMul(RDiv(RMul(V1(e, "stiffness"), V1(e, "potential_power")), 2), PowH("0.25", RSub(V1(e, "potential_power"), 1)))))
      Stored == RSumSeq(Over(p, LAMBDA e : RMul(RDiv(V1(e, "stiffness"), 2), PowH("0.25", V1(e, "potential_power")))))
  IN /\ r.w.forces = Len(g) + Len(p)
     /\ VClose(r.pF, << RSub(G[1], Push), G[2], RAdd(G[1], Push), G[2] >>, STol)
     /\ Close(r.pU, RSub(Stored, RMul(G[1], "1.75")), STol)
Shape2(e, g) == g.kind = Word(e, "type") /\ g.r = Vec(e, "r")
Bodies2(doc, w) ==
  LET b == All(doc, "rigid_body")  s == All(doc, "geometry")  gi(e) == e.a["geo_idx"].i[1] + 1  f == All(doc, "near_earth_gravity") IN
  /\ Len(w.geos) = Len(s) /\ \A k \in 1..Len(s) : Shape2(s[k], w.geos[k])
  /\ w.n = Len(b) /\ w.q = Cat(Over(b, LAMBDA e : Append(Vec(e, "x"), V1(e, "theta")))) /\ w.v = Cat(Over(b, LAMBDA e : Append(Vec(e, "v"), V1(e, "omega"))))
  /\ w.fixed = Over(b, LAMBDA e : IF Has(e, "fixed") THEN Flag(e, "fixed") ELSE FALSE) /\ w.gi = Over(b, gi)
  /\ VClose(Diag2(w.M), Cat(Over(b, LAMBDA e : << RMul(V1(e, "rho"), w.geos[gi(e)].m), RMul(V1(e, "rho"), w.geos[gi(e)].m), RMul(V1(e, "rho"), w.geos[gi(e)].I) >>)), STol)
  /\ w.forces = Len(f)
  /\ LET G == << RSumSeq(Over(f, LAMBDA e : Vec(e, "f")[1])), RSumSeq(Over(f, LAMBDA e : Vec(e, "f")[2])) >> IN
     VClose(w.F, Cat([k \in 1..w.n |-> LET m == Diag2(w.M)[3 * k - 2] IN << RMul(m, G[1]), RMul(m, G[2]), RMul(0, 1) >>]), STol)
\* the rotation by |r| about r, row by row
Turn(r) ==
  LET t == VNorm(r)  c == RCos(t)  s == RSin(t)  u == Unit(r)  d == RSub(1, c) IN
  << RAdd(c, RMul(d, RMul(u[1], u[1]))), RSub(RMul(d, RMul(u[1], u[2])), RMul(s, u[3])), RAdd(RMul(d, RMul(u[1], u[3])), RMul(s, u[2])),
     RAdd(RMul(d, RMul(u[1], u[2])), RMul(s, u[3])), RAdd(c, RMul(d, RMul(u[2], u[2]))), RSub(RMul(d, RMul(u[2], u[3])), RMul(s, u[1])),
     RSub(RMul(d, RMul(u[1], u[3])), RMul(s, u[2])), RAdd(RMul(d, RMul(u[2], u[3])), RMul(s, u[1])), RAdd(c, RMul(d, RMul(u[3], u[3]))) >>
Times(A, B) == [k \in 1..9 |-> LET i == (k - 1) \div 3  j == (k - 1) % 3 IN RDot(<< A[3 * i + 1], A[3 * i + 2], A[3 * i + 3] >>, << B[j + 1], B[j + 4], B[j + 7] >>)]
Shape3(e, g) ==
  CASE Word(e, "type") \in { "sphere", "box" } -> g.kind = Word(e, "type") /\ g.p = Vec(e, "r")
    [] Word(e, "type") = "staple" ->
         /\ g.kind = "staple" /\ Close(RMul(2, g.p[1]), V1(e, "D"), STol)
         /\ Len(g.pts) = 4 /\ \A k \in 1..3 : Close(VNorm(VSub(g.pts[k + 1], g.pts[k])), RSub(V1(e, IF k = 2 THEN "w" ELSE "l"), V1(e, "D")), STol)
Bodies3(doc, w) ==
  LET b == All(doc, "rigid_body_with_density")  s == All(doc, "geometry")  n == Len(b)
      gi(e) == LET k == e.a["geo_idx"].i[1] IN IF k < 0 THEN Len(s) + k + 1 ELSE k + 1
      f == All(doc, "near_earth_gravity") IN
  /\ Len(w.geos) = Len(s) /\ \A k \in 1..Len(s) : Shape3(s[k], w.geos[k])
  /\ w.n = n /\ w.v = Cat(Over(b, LAMBDA e : Vec(e, "v"))) \o Cat(Over(b, LAMBDA e : Vec(e, "omega")))
  /\ w.fixed = Over(b, LAMBDA e : Flag(e, "fixed")) /\ w.gi = Over(b, gi)
  /\ \A k \in 1..n : LET e == b[k]  g == w.geos[gi(e)]  rho == V1(e, "rho")
                         R == SubSeq(w.q, 3 * n + 9 * k - 8, 3 * n + 9 * k)
                         still == IF Has(e, "R") THEN \A j \in 1..3 : RSign(Vec(e, "R")[j]) = 0 ELSE TRUE IN
       /\ VClose(SubSeq(w.q, 3 * k - 2, 3 * k), VAdd(Vec(e, "x"), g.cm), STol)
       /\ VClose(R, IF still THEN g.R0 ELSE Times(Turn(Vec(e, "R")), g.R0), STol)
       /\ \A j \in 0..2 : Close(Diag2(w.M0)[3 * k - j], RMul(rho, g.m), STol)
       /\ VClose(SubSeq(Diag2(w.M0), 3 * n + 3 * k - 2, 3 * n + 3 * k), VScale(rho, g.I), STol)
       /\ LET m == Diag2(w.M0)[3 * k] IN VClose(SubSeq(w.F, 3 * k - 2, 3 * k), [j \in 1..3 |-> RMul(m, RSumSeq(Over(f, LAMBDA h : Vec(h, "f")[j])))], STol)
       /\ \A j \in 1..3 : RSign(w.F[3 * n + 3 * (k - 1) + j]) = 0
  /\ w.forces = Len(f)
Around3(doc, r) ==
  LET w == r.w  c == All(doc, "static_cylinder")  e == All(doc, "simulation_boundary")
      pr == All(doc, "static_plane_renderer")  cr == All(doc, "static_cylinder_renderer")  po == All(doc, "planar_portal")
      free == Free(doc)
      Drawn(k) == SelectSeq(pr, LAMBDA x : x.a["plane"].i[1] = k - 1)
      shown == SelectSeq([j \in 1..Len(free) |-> j], LAMBDA j : Drawn(free[j]) # << >>)
      Half(i) == LET d == Drawn(i + 1) IN IF d = << >> THEN << "0x0p+0", "0x0p+0" >> ELSE Vec(d[1], "r")
      Some(h) == \E j \in 1..2 : RSign(h[j]) # 0
      drawn == SelectSeq([j \in 1..Len(po) |-> j], LAMBDA j : Some(Half(po[j].a["planeA"].i[1])) \/ Some(Half(po[j].a["planeB"].i[1])))
  IN
  /\ Len(w.cyls) = Len(c) /\ \A k \in 1..Len(c) : w.cyls[k].x = Vec(c[k], "x") /\ VClose(w.cyls[k].a, Unit(Vec(c[k], "axis")), STol) /\ w.cyls[k].r = V1(c[k], "R")
  /\ IF Len(e) = 0 THEN w.edge = "none" ELSE w.edge = Word(e[1], "violation_behavior") /\ w.emin = Vec(e[1], "min") /\ w.emax = Vec(e[1], "max")
  /\ r.pr = [j \in 1..Len(shown) |-> [i |-> shown[j] - 1, r |-> Vec(Drawn(free[shown[j]])[1], "r")]]
  /\ r.cr = Over(cr, LAMBDA x : [i |-> x.a["cylinder_idx"].i[1], L |-> V1(x, "L")])
  /\ r.po = [j \in 1..Len(drawn) |-> LET p == po[drawn[j]] IN [i |-> drawn[j] - 1, a |-> Half(p.a["planeA"].i[1]), b |-> Half(p.a["planeB"].i[1])]]
\* the step size, the end, the script
Timing(lay, doc, r) ==
  LET i == All(doc, "integrator")  e == All(doc, "end_time")  s == All(doc, "scripting") IN
  /\ IF Len(i) = 0 THEN r.um = "none" /\ r.dt = "0" /\ r.dtq = << 0, 1 >> ELSE r.um = Word(i[1], "type") /\ r.dt = i[1].a["dt"].w /\ r.dtq = i[1].a["dt"].q
  /\ IF Len(e) = 0 THEN ~ r.ends ELSE r.ends /\ r.end = V1(e[1], "t")
  /\ r.script = IF Len(s) = 0 THEN "" ELSE Word(s[1], "callback")
RECURSIVE Op(_)
Op(e) ==
  LET lcp == [k |-> "lcp", tol |-> V1(Kids(e, "solver")[1], "tol"), max |-> Kids(e, "solver")[1].a["max_iters"].i[1]] IN
  CASE Word(e, "type") \in { "gauss_seidel", "jacobi" } -> [k |-> Word(e, "type"), tol |-> V1(e, "v_tol")]
    [] Word(e, "type") = "lcp" -> lcp
    [] Word(e, "type") = "gr" -> [k |-> "gr", tol |-> V1(e, "v_tol"), in |-> lcp]
    [] Word(e, "type") = "grr" -> [k |-> "grr", el |-> Op(Kids(e, "elastic_operator")[1]), in |-> Op(Kids(e, "inelastic_operator")[1])]
\* the solver, as it was made from the description r.want: r.same says that the one that was loaded is that one
Solver(lay, doc, r) ==
  LET o == All(doc, "impact_operator")  s == All(doc, "sobogus_friction_solver") IN
  /\ r.same
  /\ IF Len(o) = 1
     THEN /\ r.op # "none" /\ r.fs = "none" /\ r.fm = "none" /\ r.cor = V1(o[1], "CoR") /\ r.want = Op(o[1])
          /\ IF lay = "r3" THEN TRUE ELSE r.im /\ r.samemap /\ r.warm = o[1].a["cache_impulses"].i[1]
     ELSE IF Len(s) = 1
     THEN LET e == s[1]  se == Word(e, "staggering") = "symplectic_euler" IN
          /\ r.op = "none" /\ r.fs # "none" /\ r.fm # "none" /\ ~ r.im /\ r.cor = V1(e, "CoR") /\ r.mu = V1(e, "mu")
          /\ r.want.k = Word(e, "staggering") /\ r.want.every = e.a["eval_every"].i[1] /\ r.want.max = e.a["max_iters"].i[1] /\ r.want.tol = V1(e, "tol")
          /\ r.want.cache = (IF r.want.k = "stabilized" \/ (lay = "r3" /\ ~ se) THEN "none" ELSE Word(e, "cache_impulses"))
          /\ (se => r.want.stab = Flag(e, "stabilization") /\ r.want.pen = V1(e, "penetration_threshold"))
     ELSE r.op = "none" /\ r.fs = "none" /\ r.fm = "none" /\ ~ r.im
CamAt(e, c) == c.fps = e.a["fps"].i[1] /\ c.raf = Flag(e, "render_at_fps") /\ c.lock = Flag(e, "locked")
Camera(lay, doc, r) ==
  LET c == All(doc, "camera")  p == All(doc, "camera_perspective")  o == All(doc, "camera_orthographic")  k == r.cam IN
  IF k.k = "unread" THEN TRUE
  ELSE IF Len(c) > 0 THEN k.k = "plane" /\ CamAt(c[1], k) /\ (IF lay = "b2" THEN k.x = << V1(c[1], "cx"), V1(c[1], "cy") >> /\ k.scale = V1(c[1], "scale_factor") ELSE k.x = Vec(c[1], "center") /\ k.scale = V1(c[1], "scale"))
  ELSE IF Len(p) > 0 THEN /\ k.k = "perspective" /\ CamAt(p[1], k) /\ k.theta = V1(p[1], "theta") /\ k.phi = V1(p[1], "phi") /\ k.rho = V1(p[1], "rho") /\ k.at = Vec(p[1], "lookat") /\ k.up = Vec(p[1], "up")
  ELSE IF Len(o) > 0 THEN k.k = "orthographic" /\ CamAt(o[1], k) /\ k.plane = Word(o[1], "projection_plane") /\ k.x = Vec(o[1], "x") /\ k.scale = V1(o[1], "scale")
  ELSE k.k = "none"
Describes(lay, doc, r) ==
  /\ Planes(doc, r.w) /\ Joined(doc, r.w) /\ Timing(lay, doc, r) /\ Solver(lay, doc, r) /\ Camera(lay, doc, r)
  /\ \A k \in 1..Len(r.w.planes) : Still(r.w.planes[k])
  /\ CASE lay = "b2" -> Balls(doc, r.w) /\ BallForces(doc, r)
       [] lay = "r2" -> Bodies2(doc, r.w)
       [] lay = "r3" -> Bodies3(doc, r.w) /\ Around3(doc, r)
\* a legal scene is taken and gives what it describes; any other one is refused in an orderly way
Read(ev) == /\ ev.clean
            /\ IF Legal(ev.lay, ev) THEN (IF ev.took THEN Describes(ev.lay, ev.doc, ev.r) ELSE FALSE) ELSE ~ ev.took
=============================================================================
