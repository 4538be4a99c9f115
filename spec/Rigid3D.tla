------------------------------- MODULE Rigid3D -------------------------------
(***************************************************************************)
(* Contacts of the spatial rigid body simulator: spheres, boxes, sampled   *)
(* triangle meshes and scripted bodies against each other, half-spaces,    *)
(* the inside of cylinders and (spheres) periodic images.                  *)
(* q0, q1 hold [x, R] per body, R row by row.  Touching is decided where   *)
(* the step ends (q1); constraints are built where it starts (q0), except  *)
(* the points and normals of box and mesh pairs, which are those of q1.    *)
(***************************************************************************)
EXTENDS Contact
N(s) == Len(s.geo)
Kind(s, i) == s.geo[i].kind
Rad(s, i) == s.geo[i].r[1]
Sq(x) == RMul(x, x)
Tiny == "1e-9"
Col(R, k) == << R[k], R[3 + k], R[6 + k] >>
Row(R, k) == << R[3*k-2], R[3*k-1], R[3*k] >>
Turn(R, a)   == << RDot(Row(R, 1), a), RDot(Row(R, 2), a), RDot(Row(R, 3), a) >>
Unturn(R, a) == << RDot(Col(R, 1), a), RDot(Col(R, 2), a), RDot(Col(R, 3), a) >>
At(b, a) == VAdd(b.x, Turn(b.R, a))                              \* body point a in the world
Into(b, p) == Unturn(b.R, VSub(p, b.x))                          \* world point p in the body
PlaneDist(pl, x) == RDot(pl.n, VSub(x, pl.x))
Sgn(x) == IF RLt(x, RNeg(Tiny)) THEN {-1} ELSE IF RLt(Tiny, x) THEN {1} ELSE {-1, 1}

(* a pair of bodies as the simulator presents it: a scripted body comes second *)
First(s, i, j)  == IF s.fixed[i] THEN j ELSE i
Second(s, i, j) == IF s.fixed[i] THEN i ELSE j

(* spheres *)
Gap(q, s, i, j) == RSub(VNorm(VSub(q[i].x, q[j].x)), RAdd(Rad(s, i), Rad(s, j)))
\* the volume two balls at distance d share
Lens(d, ra, rb) ==
  LET big == RMax(ra, rb)  small == RMin(ra, rb) IN
  IF RLe(RAdd(ra, rb), d) THEN 0
  ELSE IF RLe(RAdd(d, small), big) THEN RDiv(RMul(RMul(4, RPi), RMul(small, Sq(small))), 3)
  ELSE RDiv(RMul(RMul(RPi, Sq(RSub(RAdd(ra, rb), d))),
                 RSub(RAdd(Sq(d), RMul(RMul(2, d), RAdd(ra, rb))), RMul(3, Sq(RSub(ra, rb))))),
            RMul(12, d))

(* boxes: the fifteen directions in which two boxes may be apart; 1-3, 4-6 face normals, 7-15 edge pairs *)
EdgeI(k) == ((k - 7) \div 3) + 1
EdgeJ(k) == ((k - 7) % 3) + 1
RawAxis(s, i, j, k) == IF k <= 3 THEN Col(s.q1[i].R, k) ELSE IF k <= 6 THEN Col(s.q1[j].R, k - 3)
                       ELSE Cross3(Col(s.q1[i].R, EdgeI(k)), Col(s.q1[j].R, EdgeJ(k)))
Proper(s, i, j, k) == k <= 6 \/ RLt("1e-6", VNorm(RawAxis(s, i, j, k)))       \* edges not parallel
AxisOf(s, i, j, k) == IF k <= 6 THEN RawAxis(s, i, j, k) ELSE Unit(RawAxis(s, i, j, k))
HalfWidth(s, i, ax) == LET u == Unturn(s.q1[i].R, ax) IN RDot(s.geo[i].r, << RAbs(u[1]), RAbs(u[2]), RAbs(u[3]) >>)
Pen(s, i, j, ax) ==                                              \* overlap along a direction, negative when apart
  RSub(RAdd(HalfWidth(s, i, ax), HalfWidth(s, j, ax)), RAbs(RDot(ax, VSub(s.q1[j].x, s.q1[i].x))))
Pens(s, i, j) == [k \in {h \in 1..15 : Proper(s, i, j, h)} |-> Pen(s, i, j, AxisOf(s, i, j, k))]
MinOf(f, S) == LET RECURSIVE G(_, _)
                   G(T, m) == IF T = {} THEN m ELSE LET x == CHOOSE y \in T : TRUE IN G(T \ {x}, RMin(m, f[x]))
               IN G(S, f[CHOOSE y \in S : TRUE])
MinPen(p) == MinOf(p, DOMAIN p)
MinFace(p) == MinOf(p, 1..6)
\* directions the contact may be resolved in: faces are preferred to edges by five per cent
Chosen(p) == {k \in DOMAIN p :
  /\ RLe(p[k], RAdd(RMul("1.05", MinPen(p)), Tiny))
  /\ IF k <= 6 THEN RLe(p[k], RAdd(MinFace(p), Tiny)) ELSE RLe(RMul("1.05", p[k]), RAdd(MinFace(p), Tiny))}
\* edge contact: midway between the nearest points of the two supporting edges; n points from i to j
Support(s, i, n, sgn) ==                                         \* the corner of box i furthest along sgn * n
  LET R == s.q1[i].R IN
  At(s.q1[i], [k \in 1..3 |-> RMul(IF RSign(RDot(n, Col(R, k))) > 0 THEN sgn ELSE -sgn, s.geo[i].r[k])])
EdgePoint(s, i, j, k, n) ==
  LET pa == Support(s, i, n, 1)  pb == Support(s, j, n, -1)
      ua == Col(s.q1[i].R, EdgeI(k))  ub == Col(s.q1[j].R, EdgeJ(k))
      p  == VSub(pb, pa)  uu == RDot(ua, ub)
      a1 == RDot(ua, p)   b1 == RNeg(RDot(ub, p))
      d  == RSub(1, Sq(uu))
      al == RDiv(RAdd(a1, RMul(uu, b1)), d)  be == RDiv(RAdd(RMul(uu, a1), b1), d)
  IN IF RLe(d, "0.0001") THEN VScale("0.5", VAdd(pa, pb))
     ELSE VScale("0.5", VAdd(VAdd(pa, VScale(al, ua)), VAdd(pb, VScale(be, ub))))
\* face contact: corners of the overlap of the incident face (of box b, seen along m) with the reference
\* face of box a (axis ka, outward normal m), where they are not above the reference face
FacePoints(s, a, b, ka, m, kb) ==
  LET Ra == s.q1[a].R  Rb == s.q1[b].R
      others(k) == CASE k = 1 -> << 2, 3 >> [] k = 2 -> << 1, 3 >> [] k = 3 -> << 1, 2 >>
      oa == others(ka)  ob == others(kb)
      sg == IF RSign(RDot(m, Col(Rb, kb))) < 0 THEN 1 ELSE -1
      c  == VAdd(VSub(s.q1[b].x, s.q1[a].x), VScale(RMul(sg, s.geo[b].r[kb]), Col(Rb, kb)))
      u1 == Col(Ra, oa[1])  u2 == Col(Ra, oa[2])
      w1 == VScale(s.geo[b].r[ob[1]], Col(Rb, ob[1]))  w2 == VScale(s.geo[b].r[ob[2]], Col(Rb, ob[2]))
      h  == << s.geo[a].r[oa[1]], s.geo[a].r[oa[2]] >>
      P2(x) == << RDot(x, u1), RDot(x, u2) >>
      c2 == P2(c)  e1 == P2(w1)  e2 == P2(w2)
      det == RSub(RMul(e1[1], e2[2]), RMul(e1[2], e2[1]))
      Coef(y) == LET d == VSub(y, c2) IN << RDiv(RSub(RMul(e2[2], d[1]), RMul(e2[1], d[2])), det),
                                            RDiv(RSub(RMul(e1[1], d[2]), RMul(e1[2], d[1])), det) >>
      InRect(y) == RLe(RAbs(y[1]), RAdd(h[1], Tiny)) /\ RLe(RAbs(y[2]), RAdd(h[2], Tiny))
      InQuad(k) == RLe(RAbs(k[1]), RAdd(1, Tiny)) /\ RLe(RAbs(k[2]), RAdd(1, Tiny))
      S == {-1, 1}
      corners == {k \in {<< RMul(x, 1), RMul(y, 1) >> : x \in S, y \in S} : InRect(VAdd(c2, VAdd(VScale(k[1], e1), VScale(k[2], e2))))}
      rects   == {k \in {Coef(<< RMul(x, h[1]), RMul(y, h[2]) >>) : x \in S, y \in S} : InQuad(k)}
      \* crossing of the side line (coordinate d = g * h[d]) with the edge on which coefficient f is fixed at z
      Cross(d, g, f, z) ==
        LET fix == IF f = 1 THEN e1 ELSE e2
            run == IF f = 1 THEN e2 ELSE e1
            t == RDiv(RSub(RMul(g, h[d]), RAdd(c2[d], RMul(z, fix[d]))), run[d])
        IN IF RLe(RAbs(run[d]), "1e-12") THEN << RMul(2, 1), RMul(2, 1) >> ELSE IF f = 1 THEN << RMul(z, 1), t >> ELSE << t, RMul(z, 1) >>
      cuts == {k \in {Cross(d, g, f, z) : d \in 1..2, g \in S, f \in 1..2, z \in S} :
                 InQuad(k) /\ InRect(VAdd(c2, VAdd(VScale(k[1], e1), VScale(k[2], e2))))}
      Pt(k) == LET y == VAdd(c, VAdd(VScale(k[1], w1), VScale(k[2], w2)))
               IN [p |-> VAdd(s.q1[a].x, y), d |-> RSub(s.geo[a].r[ka], RDot(m, y))]
  IN {Pt(k) : k \in corners \cup rects \cup cuts}
\* what may be reported for an overlapping pair: [n, pts, edge]; n from the second to the first box
BoxCands(s, i, j) ==
  LET p == Pens(s, i, j)
      d == VSub(s.q1[j].x, s.q1[i].x)
      Cand(k) ==
        LET ax == AxisOf(s, i, j, k) IN
        UNION {LET n == VScale(g, ax) IN
               IF k > 6 THEN {[n |-> VNeg(n), edge |-> TRUE, pts |-> {[p |-> EdgePoint(s, i, j, k, n), d |-> p[k]]}]}
               ELSE LET a == IF k <= 3 THEN i ELSE j
                        b == IF k <= 3 THEN j ELSE i
                        ka == IF k <= 3 THEN k ELSE k - 3
                        m == IF k <= 3 THEN n ELSE VNeg(n)
                        al(h) == RAbs(RDot(m, Col(s.q1[b].R, h)))
                    IN {[n |-> VNeg(n), edge |-> FALSE, pts |-> FacePoints(s, a, b, ka, m, kb)] :
                          kb \in {h \in 1..3 : \A o \in 1..3 : RLe(RSub(al(o), Tiny), al(h))}}
               : g \in Sgn(RDot(ax, d))}
  IN UNION {Cand(k) : k \in Chosen(p)}
BoxesMay(s, i, j, slack)  == RLe(RNeg(slack), MinPen(Pens(s, i, j)))
\* a pair that merely touches along an edge or at a corner need not be reported
BoxesMust(s, i, j, slack) ==
  LET p == Pens(s, i, j) IN
  IF RSign(slack) # 0 THEN RLe(slack, MinPen(p))
  ELSE /\ RLe(0, MinPen(p))
       /\ LET flat == {k \in DOMAIN p : RLe(p[k], Tiny)} IN
          \A a, b \in flat : RLe(VNorm(Cross3(AxisOf(s, i, j, a), AxisOf(s, i, j, b))), Tiny)

(* meshes: a surface sample of one in the interpolated distance field of the other *)
Field(g, x) ==                                                   \* x in the mesh's frame; << >> off the grid
  LET rel == [k \in 1..3 |-> RDiv(RSub(x[k], g.origin[k]), g.delta[k])]
      in  == \A k \in 1..3 : RLe(0, rel[k]) /\ RLe(rel[k], g.dims[k] - 1)
      c   == [k \in 1..3 |-> RToInt(RMin(RFloor(rel[k]), g.dims[k] - 2))]
      b   == [k \in 1..3 |-> RSub(rel[k], c[k])]
      a   == [k \in 1..3 |-> RSub(1, b[k])]
      v(i, j, k) == g.sdf[((c[3] + k) * g.dims[2] + c[2] + j) * g.dims[1] + c[1] + i + 1]
      w(d, o) == IF o = 1 THEN b[d] ELSE a[d]
      B == {0, 1}
      Mix(u, x1, x0) == RAdd(RMul(b[u], x1), RMul(a[u], x0))
      val == Mix(3, Mix(2, Mix(1, v(1, 1, 1), v(0, 1, 1)), Mix(1, v(1, 0, 1), v(0, 0, 1))),
                    Mix(2, Mix(1, v(1, 1, 0), v(0, 1, 0)), Mix(1, v(1, 0, 0), v(0, 0, 0))))
      gx == RSub(Mix(3, Mix(2, v(1,1,1), v(1,0,1)), Mix(2, v(1,1,0), v(1,0,0))), Mix(3, Mix(2, v(0,1,1), v(0,0,1)), Mix(2, v(0,1,0), v(0,0,0))))
      gy == RSub(Mix(3, Mix(1, v(1,1,1), v(0,1,1)), Mix(1, v(1,1,0), v(0,1,0))), Mix(3, Mix(1, v(1,0,1), v(0,0,1)), Mix(1, v(1,0,0), v(0,0,0))))
      gz == RSub(Mix(2, Mix(1, v(1,1,1), v(0,1,1)), Mix(1, v(1,0,1), v(0,0,1))), Mix(2, Mix(1, v(1,1,0), v(0,1,0)), Mix(1, v(1,0,0), v(0,0,0))))
  IN IF ~in THEN << >> ELSE << val, Unit(<< RDiv(gx, g.delta[1]), RDiv(gy, g.delta[2]), RDiv(gz, g.delta[3]) >>) >>
\* contact points and normals of samples of a in b; the normal points out of b
Hits(s, a, b) ==
  {h \in {LET p == At(s.q1[a], s.geo[a].samples[k])
              f == Field(s.geo[b], Into(s.q1[b], p))
          IN IF f = << >> THEN [d |-> RMul(1, 1), p |-> p, n |-> p] ELSE [d |-> f[1], p |-> p, n |-> Turn(s.q1[b].R, f[2])]
          : k \in 1..Len(s.geo[a].samples)} : RLe(h.d, Tiny)}
MeshCands(s, i, j) == Hits(s, i, j) \cup {[h EXCEPT !.n = VNeg(h.n)] : h \in Hits(s, j, i)}

(* the inside of a cylinder *)
Radial(cy, x) == LET d == VSub(x, cy.x) IN VSub(d, VScale(RDot(cy.a, d), cy.a))
CylGap(cy, x, r) == RSub(RSub(cy.r, VNorm(Radial(cy, x))), r)

(* periodic images of spheres: the point keeps its coordinates in the plane's frame (n, t0, t1), each turned
   by the portal's multiplier, seen from the other plane *)
Here == [p |-> 0, side |-> "a"]
Other(sd) == IF sd = "a" THEN "b" ELSE "a"
Side(p, sd) == IF sd = "a" THEN p.a ELSE p.b
Through(p, sd, x) ==
  LET a == Side(p, sd)  b == Side(p, Other(sd))
      d == VSub(a.x, x)
  IN VAdd(b.x, VAdd(VScale(RMul(p.m[1], RDot(a.n, d)), b.n),
                    VAdd(VScale(RMul(p.m[2], RDot(a.t0, d)), b.t0), VScale(RMul(p.m[3], RDot(a.t1, d)), b.t1))))
FrameOk(a, tol) == /\ Close(RDot(a.t0, a.t0), 1, tol) /\ Close(RDot(a.t1, a.t1), 1, tol) /\ Close(RDot(a.n, a.t0), 0, tol)
                   /\ VClose(Cross3(a.t1, a.t0), a.n, tol)       \* t0, t1 are x and z when n is y
TouchBox(pl, x, r) == RSub(PlaneDist(pl, x), RMul(r, RSumSeq([k \in 1..3 |-> RAbs(pl.n[k])])))
ImagesMay(s, i, slack) == {Here} \cup {im \in [p : 1..Len(s.portals), side : {"a", "b"}] :
    RLe(TouchBox(Side(s.portals[im.p], im.side), s.q1[i].x, Rad(s, i)), slack)}
ImagesMust(s, i, slack) == {Here} \cup {im \in [p : 1..Len(s.portals), side : {"a", "b"}] :
    RLe(RSub(PlaneDist(Side(s.portals[im.p], im.side), s.q1[i].x), Rad(s, i)), RNeg(slack))}
Place(s, im, x) == IF im.p = 0 THEN x ELSE Through(s.portals[im.p], im.side, x)
ImGap(s, i, mi, j, mj) == RSub(VNorm(VSub(Place(s, mi, s.q1[i].x), Place(s, mj, s.q1[j].x))), RAdd(Rad(s, i), Rad(s, j)))
TeleMay(s, i, j, mi, mj, slack) ==
  /\ mi.p # 0 \/ mj.p # 0
  /\ RLe(ImGap(s, i, mi, j, mj), slack)
  /\ (mi.p # 0 /\ mj.p # 0) => RLe(RNeg(slack), Gap(s.q1, s, i, j))
TeleMust(s, i, j, mi, mj, slack) ==
  /\ mi.p # 0 \/ mj.p # 0
  /\ RLe(ImGap(s, i, mi, j, mj), RNeg(slack))
  /\ (mi.p # 0 /\ mj.p # 0) => RLt(slack, Gap(s.q1, s, i, j))

(* one reported contact *)
Sphere(s, i) == Kind(s, i) = "sphere"
Flags(c, f) == c.ct = f /\ c.ca = f /\ c.cf = f
SphereSphere(s, c, tol, slack) ==
  LET i == c.s0 + 1  j == c.s1 + 1  ra == Rad(s, i)  rb == Rad(s, j)
  IN /\ i < j /\ Indices(c, i, j, i, j) /\ c.obj = -1 /\ ~s.fixed[i] /\ ~s.fixed[j] /\ Sphere(s, i) /\ Sphere(s, j)
     /\ RLe(Gap(s.q1, s, i, j), slack)
     /\ VClose(c.n, Unit(VSub(s.q0[i].x, s.q0[j].x)), tol)
     /\ VClose(c.p, VAdd(s.q0[i].x, VScale(RDiv(ra, RAdd(ra, rb)), VSub(s.q0[j].x, s.q0[i].x))), tol)
     /\ Close(c.gap, Gap(s.q0, s, i, j), tol) /\ Close(c.depth, RMin(0, Gap(s.q0, s, i, j)), tol)
     /\ Flags(c, TRUE)
KinSphere(s, c, tol, slack) ==
  LET i == c.s0 + 1  j == c.b1 + 1
  IN /\ Indices(c, i, 0, i, j) /\ c.obj = -1 /\ ~s.fixed[i] /\ s.fixed[j] /\ Sphere(s, i) /\ Sphere(s, j)
     /\ RLe(Gap(s.q1, s, i, j), slack)
     /\ VClose(c.n, Unit(VSub(s.q0[i].x, s.q0[j].x)), tol)
     /\ VClose(c.p, VSub(s.q0[i].x, VScale(Rad(s, i), c.n)), tol)
     /\ Close(c.gap, Gap(s.q0, s, i, j), tol) /\ Close(c.depth, RMin(0, Gap(s.q0, s, i, j)), tol)
     /\ Flags(c, FALSE)
BodyBody(s, c) ==                                                \* points and normals are judged in Complete
  LET i == c.b0 + 1  j == c.b1 + 1
  IN /\ c.obj = -1 /\ ~s.fixed[i] /\ ~Sphere(s, i) /\ Kind(s, i) = Kind(s, j)
     /\ IF c.name = "body_body" THEN i < j /\ ~s.fixed[j] /\ Indices(c, i, j, i, j) /\ Flags(c, TRUE)
        ELSE s.fixed[j] /\ Indices(c, i, 0, i, j) /\ Flags(c, FALSE)
PlaneSphere(s, c, tol, slack) ==
  LET i == c.s0 + 1  pl == s.planes[c.obj + 1]
      g == RSub(PlaneDist(pl, s.q0[i].x), Rad(s, i))
  IN /\ Indices(c, i, 0, i, 0) /\ ~s.fixed[i] /\ Sphere(s, i)
     /\ RLe(RSub(PlaneDist(pl, s.q1[i].x), Rad(s, i)), slack)
     /\ VClose(c.n, pl.n, tol) /\ VClose(c.p, VSub(s.q0[i].x, VScale(Rad(s, i), pl.n)), tol)
     /\ Close(c.gap, g, tol) /\ Close(c.depth, RMin(0, g), tol)
     /\ Flags(c, FALSE)
CornersOf(s, i) == {<< RMul(a, s.geo[i].r[1]), RMul(b, s.geo[i].r[2]), RMul(c, s.geo[i].r[3]) >> : a \in {-1, 1}, b \in {-1, 1}, c \in {-1, 1}}
Points(s, i) == IF Kind(s, i) = "box" THEN CornersOf(s, i) ELSE {s.geo[i].hull[k] : k \in 1..Len(s.geo[i].hull)}
PlaneBody(s, c, tol, slack) ==
  LET i == c.s0 + 1  pl == s.planes[c.obj + 1]
  IN /\ Indices(c, i, 0, i, 0) /\ ~s.fixed[i] /\ ~Sphere(s, i)
     /\ c.name = (IF Kind(s, i) = "box" THEN "static_plane_box" ELSE "static_plane_body")
     /\ VClose(c.n, pl.n, tol)
     /\ \E m \in Points(s, i) : RLe(PlaneDist(pl, At(s.q1[i], m)), slack) /\ VClose(c.p, At(s.q0[i], m), tol)
     /\ Flags(c, FALSE)
CylSphere(s, c, tol, slack) ==
  LET i == c.s0 + 1  cy == s.cyls[c.obj + 1]
  IN /\ Indices(c, i, 0, i, 0) /\ ~s.fixed[i] /\ Sphere(s, i)
     /\ RLe(CylGap(cy, s.q1[i].x, Rad(s, i)), slack)
     /\ VClose(c.n, VNeg(Unit(Radial(cy, s.q0[i].x))), tol)
     /\ VClose(c.p, VSub(s.q0[i].x, VScale(Rad(s, i), c.n)), tol)
     /\ Close(c.gap, CylGap(cy, s.q0[i].x, Rad(s, i)), tol) /\ Close(c.depth, RMin(0, CylGap(cy, s.q0[i].x, Rad(s, i))), tol)
     /\ Flags(c, FALSE)
TeleContact(s, c, tol, slack) ==
  LET i == c.s0 + 1  j == c.s1 + 1  ra == Rad(s, i)  rb == Rad(s, j)
  IN /\ i < j /\ Indices(c, i, j, i, j) /\ c.obj = -1 /\ ~s.fixed[i] /\ ~s.fixed[j]
     /\ \E mi \in ImagesMay(s, i, slack), mj \in ImagesMay(s, j, slack) :
          LET d == VSub(Place(s, mi, s.q0[i].x), Place(s, mj, s.q0[j].x))
          IN /\ TeleMay(s, i, j, mi, mj, slack)
             /\ VClose(c.n, Unit(d), tol)
             /\ VClose(c.p, VSub(s.q0[i].x, VScale(RDiv(ra, RAdd(ra, rb)), d)), tol)
     /\ c.ct /\ ~c.ca /\ ~c.cf
KinTele(s, c, tol, slack) ==
  LET i == c.s0 + 1  j == c.b1 + 1
  IN /\ Indices(c, i, 0, i, j) /\ c.obj = -1 /\ ~s.fixed[i] /\ s.fixed[j]
     /\ \E mi \in ImagesMay(s, i, slack), mj \in ImagesMay(s, j, slack) :
          /\ TeleMay(s, i, j, mi, mj, slack)
          /\ VClose(c.n, Unit(VSub(Place(s, mi, s.q0[i].x), Place(s, mj, s.q0[j].x))), tol)
          /\ VClose(c.p, VSub(s.q0[i].x, VScale(Rad(s, i), c.n)), tol)
     /\ Flags(c, FALSE)
Valid(s, c, tol, slack) ==
  CASE c.name = "sphere_sphere" -> SphereSphere(s, c, tol, slack)
    [] c.name = "kinematic_sphere_sphere" -> KinSphere(s, c, tol, slack)
    [] c.name \in {"body_body", "kinematic_object_body"} -> BodyBody(s, c)
    [] c.name = "static_plane_sphere" -> PlaneSphere(s, c, tol, slack)
    [] c.name \in {"static_plane_box", "static_plane_body"} -> PlaneBody(s, c, tol, slack)
    [] c.name = "static_cylinder_sphere" -> CylSphere(s, c, tol, slack)
    [] c.name = "teleported_sphere_sphere" -> TeleContact(s, c, tol, slack)
    [] c.name = "kinematic_object_sphere" -> KinTele(s, c, tol, slack)
    [] OTHER -> FALSE
\* a mesh vertex at a cylinder: arm and direction, the direction that of the body's centre
CylBody(s, b, tol, slack) ==
  LET i == b.s0 + 1
      ax == << b.H0[1][4], b.H0[1][5], b.H0[1][6] >>
  IN /\ b.name = "static_cylinder_body" /\ i \in 1..N(s) /\ b.s1 = -1 /\ ~s.fixed[i] /\ Kind(s, i) = "mesh"
     /\ \E k \in 1..Len(s.cyls), m \in Points(s, i) :
          LET n == VNeg(Unit(Radial(s.cyls[k], s.q0[i].x))) IN
          /\ RLe(CylGap(s.cyls[k], At(s.q1[i], m), 0), slack)
          /\ VClose(b.basis[1], n, tol)
          /\ VClose(ax, Cross3(Turn(s.q0[i].R, m), b.basis[1]), tol)

(* all contacts, each once *)
Pair(cs, names, i, j) == {k \in 1..Len(cs) : cs[k].name \in names /\ cs[k].b0 = i - 1 /\ cs[k].b1 = j - 1}
Single(cs, names, i, obj) == {k \in 1..Len(cs) : cs[k].name \in names /\ cs[k].b0 = i - 1 /\ cs[k].b1 = -1 /\ cs[k].obj = obj - 1}
Distinct(cs, ks, tol) == \A a, b \in ks : a # b => ~VClose(cs[a].p, cs[b].p, tol)
PairOk(s, cs, i0, j0, tol, slack) ==
  LET i == First(s, i0, j0)  j == Second(s, i0, j0)
      ss == Pair(cs, {"sphere_sphere", "kinematic_sphere_sphere"}, i, j)
      bb == Pair(cs, {"body_body", "kinematic_object_body"}, i, j)
      tt == Pair(cs, {"teleported_sphere_sphere", "kinematic_object_sphere"}, i, j)
      neg == RNeg(slack)
  IN
  IF s.fixed[i0] /\ s.fixed[j0] THEN ss \cup bb \cup tt = {}
  ELSE IF Sphere(s, i)
  THEN /\ bb = {} /\ Cardinality(ss) <= 1 /\ Cardinality(tt) <= 1
       /\ RLe(Gap(s.q1, s, i, j), neg) => ss # {}
       /\ (Len(s.portals) > 0 /\ \E mi \in ImagesMust(s, i, slack), mj \in ImagesMust(s, j, slack) : TeleMust(s, i, j, mi, mj, slack)) => tt # {}
  ELSE IF Kind(s, i) = "box"
  THEN IF bb = {} THEN ~BoxesMust(s, i, j, slack)
       ELSE /\ BoxesMay(s, i, j, slack)
            /\ \E k \in BoxCands(s, i, j) :
                 /\ \A m \in bb : VClose(cs[m].n, k.n, tol) /\ \E h \in k.pts : RLe(RNeg(Tiny), h.d) /\ VClose(cs[m].p, h.p, tol)
                 /\ \A h \in k.pts : RLe(Tiny, h.d) => \E m \in bb : VClose(cs[m].p, h.p, tol)
                 /\ Cardinality(bb) <= Cardinality(k.pts) /\ Cardinality(bb) <= 8
  ELSE LET hs == MeshCands(s, i, j) IN
       /\ \A m \in bb : \E h \in hs : VClose(cs[m].p, h.p, tol) /\ VClose(cs[m].n, h.n, tol)
       /\ \A h \in hs : RLe(h.d, RNeg(Tiny)) => \E m \in bb : VClose(cs[m].p, h.p, tol) /\ VClose(cs[m].n, h.n, tol)
       /\ Cardinality(bb) <= Cardinality(hs)
PlaneOk(s, cs, i, k, tol, slack) ==
  LET pc == Single(cs, {"static_plane_sphere"}, i, k)
      pb == Single(cs, {"static_plane_box", "static_plane_body"}, i, k)
      neg == RNeg(slack)
  IN IF s.fixed[i] THEN pc \cup pb = {}
     ELSE IF Sphere(s, i)
     THEN /\ Cardinality(pc) <= 1
          /\ RLe(RSub(PlaneDist(s.planes[k], s.q1[i].x), Rad(s, i)), neg) => pc # {}
     ELSE /\ Distinct(cs, pb, tol)
          /\ \A m \in Points(s, i) : RLe(PlaneDist(s.planes[k], At(s.q1[i], m)), neg) => \E c \in pb : VClose(cs[c].p, At(s.q0[i], m), tol)
CylOk(s, cs, bs, i, k, tol, slack) ==
  LET cc == Single(cs, {"static_cylinder_sphere"}, i, k)
      neg == RNeg(slack)
  IN IF s.fixed[i] THEN cc = {}
     ELSE IF Sphere(s, i) THEN Cardinality(cc) <= 1 /\ (RLe(CylGap(s.cyls[k], s.q1[i].x, Rad(s, i)), neg) => cc # {})
     ELSE \A m \in Points(s, i) : RLe(CylGap(s.cyls[k], At(s.q1[i], m), 0), neg) =>
            \E b \in 1..Len(bs) : bs[b].s0 = i - 1 /\
               VClose(<< bs[b].H0[1][4], bs[b].H0[1][5], bs[b].H0[1][6] >>, Cross3(Turn(s.q0[i].R, m), bs[b].basis[1]), tol)
Complete(s, cs, bs, tol, slack) ==
  /\ \A p \in 1..Len(s.portals) : FrameOk(s.portals[p].a, tol) /\ FrameOk(s.portals[p].b, tol)
  /\ \A i \in 1..N(s) : \A j \in (i+1)..N(s) : PairOk(s, cs, i, j, tol, slack)
  /\ \A i \in 1..N(s), k \in 1..Len(s.planes) : PlaneOk(s, cs, i, k, tol, slack)
  /\ \A i \in 1..N(s), k \in 1..Len(s.cyls) : CylOk(s, cs, bs, i, k, tol, slack)
  /\ \A i \in 1..N(s) : Cardinality({b \in 1..Len(bs) : bs[b].s0 = i - 1}) <= Len(s.cyls) * Cardinality(IF Kind(s, i) = "mesh" THEN Points(s, i) ELSE {})

(* what the kinematics of a contact are judged by *)
KinVel(s, c) ==
  CASE c.name = "static_plane_sphere" ->
         LET pl == s.planes[c.obj + 1]
             x == s.q0[c.s0 + 1].x
             r == VSub(VSub(x, VScale(PlaneDist(pl, x), pl.n)), pl.x)
         IN VAdd(pl.v, Cross3(pl.w, r))
    [] c.name = "static_cylinder_sphere" ->
         LET cy == s.cyls[c.obj + 1]
             x == s.q0[c.s0 + 1].x
             r == VAdd(VScale(RDot(cy.a, VSub(x, cy.x)), cy.a), VScale(cy.r, Unit(Radial(cy, x))))
         IN Cross3(cy.w, r)
    [] OTHER -> << 0, 0, 0 >>
Arm0(s, c) == VSub(c.p, s.q0[c.s0 + 1].x)
Arm1(s, c) == IF c.s1 < 0 THEN << 0, 0, 0 >>
              ELSE IF c.name = "teleported_sphere_sphere" THEN VScale(RNeg(RDiv(Rad(s, c.s1 + 1), Rad(s, c.s0 + 1))), Arm0(s, c))
              ELSE VSub(c.p, s.q0[c.s1 + 1].x)
BareKinematics(s, b, v, tol) ==
  \E m \in Points(s, b.s0 + 1) :
    LET i == b.s0 + 1  a == Turn(s.q0[i].R, m)  rel == PointVel("r3", N(s), v, i, a) IN
    /\ VClose(b.rel, rel, tol) /\ Close(b.nv, RDot(b.basis[1], rel), tol) /\ IsBasis("r3", b.basis, b.basis[1], tol) /\ Opposes(b.basis[2], rel, b.basis[1])
    /\ \A k \in 1..3 : VClose(b.H0[k], BodyRow("r3", a, b.basis[k]), tol)
=============================================================================
