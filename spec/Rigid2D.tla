------------------------------- MODULE Rigid2D -------------------------------
(***************************************************************************)
(* Contacts of the planar rigid body simulator: circles and boxes, some of *)
(* them scripted (moved from outside), against each other, half-planes and *)
(* periodic images.  q0, q1 hold <<x, y, angle>> per body.                 *)
(* Circles are swept over the step; boxes are tested where the step ends.  *)
(***************************************************************************)
EXTENDS Portal2D
N(s) == Len(s.geo)
X(q) == << q[1], q[2] >>
Box(s, i) == s.geo[i].box
Rad(s, i) == s.geo[i].r[1]
Sq(x) == RMul(x, x)
Rot(th, a) == << RSub(RMul(RCos(th), a[1]), RMul(RSin(th), a[2])), RAdd(RMul(RSin(th), a[1]), RMul(RCos(th), a[2])) >>
Mid(th, k) == IF k = 1 THEN << RCos(th), RSin(th) >> ELSE << RNeg(RSin(th)), RCos(th) >>     \* box axis k
Local(th, a) == << RDot(Mid(th, 1), a), RDot(Mid(th, 2), a) >>
Tiny == "1e-9"

(* circle - circle *)
Reach(s, i, j) ==
  LET d0 == VSub(X(s.q0[i]), X(s.q0[j]))
      d1 == VSub(X(s.q1[i]), X(s.q1[j]))
      D  == VSub(d1, d0)
      DD == RDot(D, D)
      t  == IF RSign(DD) = 0 THEN 0 ELSE RMin(1, RMax(0, RDiv(RNeg(RDot(d0, D)), DD)))
  IN RSub(VNorm(VAdd(d0, VScale(t, D))), RAdd(Rad(s, i), Rad(s, j)))
Gap1(s, i, j) == RSub(VNorm(VSub(X(s.q1[i]), X(s.q1[j]))), RAdd(Rad(s, i), Rad(s, j)))
CirclesMay(s, i, j, slack)  == RLe(Reach(s, i, j), RMax(slack, "1e-12"))
CirclesMust(s, i, j, slack) ==
  LET R == RAdd(Rad(s, i), Rad(s, j)) IN
  IF RSign(slack) # 0 THEN RLe(IF Len(s.portals) = 0 THEN Reach(s, i, j) ELSE Gap1(s, i, j), RNeg(slack))
  ELSE RLe(VNorm2(VSub(X(s.q1[i]), X(s.q1[j]))), Sq(R))

(* circle - box: the box's nearest corner, or the face in whose sector the centre lies.               *)
(* Yields the candidates [n, d]: normal from box to circle, signed distance; several only in a tie.   *)
SignsOf(x) == IF RLt(x, RNeg(Tiny)) THEN {-1} ELSE IF RLt(Tiny, x) THEN {1} ELSE {-1, 1}
CircleBox(s, c, b) ==
  LET th == s.q1[b][3]
      l  == Local(th, VSub(X(s.q1[c]), X(s.q1[b])))
      r  == s.geo[b].r
      a  == << RAbs(l[1]), RAbs(l[2]) >>
      e  == RSub(RMul(r[1], a[2]), RMul(r[2], a[1]))          \* < 0: right/left sector, > 0: top/bottom
      out == RLt(r[1], a[1]) /\ RLt(r[2], a[2])
      k  == VSub(a, r)
      d  == VNorm(k)
      sg == {<< u, w >> : u \in SignsOf(l[1]), w \in SignsOf(l[2])}
  IN IF out THEN {[n |-> VAdd(VScale(RMul(g[1], RDiv(k[1], d)), Mid(th, 1)), VScale(RMul(g[2], RDiv(k[2], d)), Mid(th, 2))),
                   d |-> RSub(d, Rad(s, c))] : g \in sg}
     ELSE {[n |-> VScale(g[1], Mid(th, 1)), d |-> RSub(RSub(a[1], Rad(s, c)), r[1])] : g \in (IF RLe(e, Tiny) THEN sg ELSE {})}
     \cup {[n |-> VScale(g[2], Mid(th, 2)), d |-> RSub(RSub(a[2], Rad(s, c)), r[2])] : g \in (IF RLe(RNeg(Tiny), e) THEN sg ELSE {})}

(* box - box: separating axes *)
AxisOf(s, i, j, k) == IF k <= 2 THEN Mid(s.q1[i][3], k) ELSE Mid(s.q1[j][3], k - 2)
HalfWidth(s, i, ax) == RAdd(RMul(s.geo[i].r[1], RAbs(RDot(ax, Mid(s.q1[i][3], 1)))), RMul(s.geo[i].r[2], RAbs(RDot(ax, Mid(s.q1[i][3], 2)))))
AxisDepth(s, i, j, k) ==
  LET ax == AxisOf(s, i, j, k) IN
  RSub(RAbs(RDot(ax, VSub(X(s.q1[j]), X(s.q1[i])))), RAdd(HalfWidth(s, i, ax), HalfWidth(s, j, ax)))
BoxDepth(s, i, j) == LET d == [k \in 1..4 |-> AxisDepth(s, i, j, k)] IN RMax(RMax(d[1], d[2]), RMax(d[3], d[4]))
\* With reference face of box ra (outward normal m = +-axis), the incident edge of the other box is
\* clipped against the sides of the reference face; the part below the face gives the contact points,
\* placed half way between the surfaces.
ClipPoints(s, ra, rb, a, m, bn) ==
  LET ta == Mid(s.q1[ra][3], 3 - a)
      bm == Mid(s.q1[rb][3], bn)
      tb == Mid(s.q1[rb][3], 3 - bn)
      sg == IF RLt(RDot(m, bm), 0) THEN 1 ELSE -1
      fc == VAdd(VSub(X(s.q1[rb]), X(s.q1[ra])), VScale(RMul(sg, s.geo[rb].r[bn]), bm))   \* middle of the incident edge
      cc == RDot(fc, ta)
      co == RDot(ta, tb)
      h  == RMul(RAbs(co), s.geo[rb].r[3 - bn])
      w  == s.geo[ra].r[3 - a]
      lo == RMax(RNeg(w), RMin(RSub(cc, h), w))
      hi == RMin(w, RMax(RAdd(cc, h), RNeg(w)))
      Pt(u) == VAdd(fc, VScale(RDiv(RSub(u, cc), co), tb))
      Dep(u) == RSub(s.geo[ra].r[a], RDot(m, Pt(u)))
      Out(u) == [p |-> VAdd(X(s.q1[ra]), VAdd(Pt(u), VScale(RMul("0.5", Dep(u)), m))), d |-> Dep(u)]
  IN << Out(lo), Out(hi) >>
\* candidates [n, pts] (n from j to i); several only in a tie
BoxBox(s, i, j) ==
  LET best == BoxDepth(s, i, j)
      ks   == {k \in 1..4 : RLe(RSub(best, Tiny), AxisDepth(s, i, j, k))}
      p    == VSub(X(s.q1[j]), X(s.q1[i]))
      Cand(k) ==
        LET ax == AxisOf(s, i, j, k)
            first == k <= 2
            ra == IF first THEN i ELSE j
            rb == IF first THEN j ELSE i
            a  == IF first THEN k ELSE k - 2
        IN UNION {LET n == VScale(g, ax)                        \* from i to j
                      m == IF first THEN n ELSE VNeg(n)
                      nb == << RAbs(RDot(m, Mid(s.q1[rb][3], 1))), RAbs(RDot(m, Mid(s.q1[rb][3], 2))) >>
                  IN {[n |-> VNeg(n), pts |-> ClipPoints(s, ra, rb, a, m, bn)] :
                        bn \in {b \in 1..2 : RLe(RSub(nb[3 - b], Tiny), nb[b])}}
                  : g \in SignsOf(RDot(ax, p))}
  IN UNION {Cand(k) : k \in ks}

(* planes *)
PlaneGap(s, i, k) == RSub(PlaneDist(s.planes[k], X(s.q1[i])), Rad(s, i))
Corners == << << 1, 1 >>, << 1, -1 >>, << -1, 1 >>, << -1, -1 >> >>
Arm(s, i, k) == << RMul(Corners[k][1], s.geo[i].r[1]), RMul(Corners[k][2], s.geo[i].r[2]) >>
CornerAt(s, q, i, k) == VAdd(X(q[i]), Rot(q[i][3], Arm(s, i, k)))

(* periodic images (circles only) *)
Here == [p |-> 0, side |-> "A"]
TouchAABB(pl, x, r) == RSub(PlaneDist(pl, x), RMul(r, RAdd(RAbs(pl.n[1]), RAbs(pl.n[2]))))
ImagesMay(s, i, slack) == {Here} \cup {im \in [p : 1..Len(s.portals), side : {"A", "B"}] :
    RLe(TouchAABB(Side(s.portals[im.p], im.side), X(s.q1[i]), Rad(s, i)), slack)}
ImagesMust(s, i, slack) == {Here} \cup {im \in [p : 1..Len(s.portals), side : {"A", "B"}] :
    RLe(TouchGap(s.portals[im.p], im.side, X(s.q1[i]), Rad(s, i)), RNeg(slack))}
Place(s, im, x) == IF im.p = 0 THEN x ELSE Through(s.portals[im.p], im.side, x)
ImGap(s, i, mi, j, mj) ==
  RSub(VNorm(VSub(Place(s, mi, X(s.q1[i])), Place(s, mj, X(s.q1[j])))), RAdd(Rad(s, i), Rad(s, j)))
TeleKick(s, mi, mj) ==
  IF mj.p # 0 /\ RSign(s.portals[mj.p].v) # 0 THEN Kick(s.portals[mj.p], mj.side)
  ELSE IF mi.p # 0 /\ RSign(s.portals[mi.p].v) # 0 THEN VNeg(Kick(s.portals[mi.p], mi.side))
  ELSE << 0, 0 >>
\* two images: only when the bodies do not also meet directly
TeleMay(s, i, j, mi, mj, slack) ==
  /\ mi.p # 0 \/ mj.p # 0
  /\ RLe(ImGap(s, i, mi, j, mj), slack)
  /\ (mi.p # 0 /\ mj.p # 0) => RLe(RNeg(slack), Gap1(s, i, j))
TeleMust(s, i, j, mi, mj, slack) ==
  /\ mi.p # 0 \/ mj.p # 0
  /\ RLe(ImGap(s, i, mi, j, mj), RNeg(slack))
  /\ (mi.p # 0 /\ mj.p # 0) => RLt(slack, Gap1(s, i, j))

(* one reported contact *)
CircleCircle(s, c, tol, slack) ==
  LET i == c.s0 + 1  j == c.s1 + 1
      n == Unit(VSub(X(s.q0[i]), X(s.q0[j])))
      ra == Rad(s, i)  rb == Rad(s, j)
  IN /\ i < j /\ Indices(c, i, j, i, j) /\ c.obj = -1 /\ ~s.fixed[i] /\ ~s.fixed[j] /\ ~Box(s, i) /\ ~Box(s, j)
     /\ CirclesMay(s, i, j, slack)
     /\ VClose(c.n, n, tol)
     /\ VClose(c.p, VAdd(X(s.q0[i]), VScale(RDiv(ra, RAdd(ra, rb)), VSub(X(s.q0[j]), X(s.q0[i])))), tol)
     /\ Close(c.depth, RMin(0, RSub(VNorm(VSub(X(s.q0[i]), X(s.q0[j]))), RAdd(ra, rb))), tol)
     /\ c.ct /\ c.ca /\ c.cf
KinematicCircle(s, c, tol, slack) ==                  \* a circle against a scripted circle or box
  LET i == c.s0 + 1  j == c.b1 + 1
  IN /\ Indices(c, i, 0, i, j) /\ c.obj = -1 /\ ~s.fixed[i] /\ s.fixed[j] /\ ~Box(s, i)
     /\ IF Box(s, j)
        THEN \E k \in CircleBox(s, i, j) : RLe(k.d, slack) /\ VClose(c.n, k.n, tol)
        ELSE CirclesMay(s, i, j, slack) /\ VClose(c.n, Unit(VSub(X(s.q0[i]), X(s.q0[j]))), tol)
     /\ VClose(c.p, VSub(X(s.q0[i]), VScale(Rad(s, i), c.n)), tol)
     /\ ~c.ct /\ ~c.ca /\ ~c.cf
BodyBody(s, c, tol, slack) ==                         \* individually; the set of points is judged in Complete
  LET i == c.s0 + 1  j == c.s1 + 1
  IN /\ i < j /\ Indices(c, i, j, i, j) /\ c.obj = -1 /\ ~s.fixed[i] /\ ~s.fixed[j]
     /\ Box(s, i) \/ Box(s, j)
     /\ c.ct /\ c.ca /\ c.cf
     /\ IF Box(s, i) /\ Box(s, j)
        THEN /\ RLe(BoxDepth(s, i, j), slack)
             /\ \E k \in BoxBox(s, i, j) : VClose(c.n, k.n, tol) /\ \E m \in 1..2 : RLe(RNeg(Tiny), k.pts[m].d) /\ VClose(c.p, k.pts[m].p, tol)
        ELSE LET circ == IF Box(s, i) THEN j ELSE i
                 box  == IF Box(s, i) THEN i ELSE j
             IN \E k \in CircleBox(s, circ, box) :
                  /\ RLe(k.d, slack)
                  /\ VClose(c.n, IF circ = i THEN k.n ELSE VNeg(k.n), tol)
                  /\ VClose(c.p, VSub(X(s.q1[circ]), VScale(RAdd(Rad(s, circ), RMul("0.5", k.d)), k.n)), tol)
PlaneCircle(s, c, tol, slack) ==
  LET i == c.s0 + 1  k == c.obj + 1  pl == s.planes[k]
  IN /\ Indices(c, i, 0, i, 0) /\ ~s.fixed[i] /\ ~Box(s, i)
     /\ RLe(PlaneGap(s, i, k), slack)
     /\ VClose(c.n, pl.n, tol)
     /\ VClose(c.p, VSub(X(s.q0[i]), VScale(Rad(s, i), pl.n)), tol)
     /\ Close(c.depth, RMin(0, RSub(PlaneDist(pl, X(s.q0[i])), Rad(s, i))), tol)
     /\ ~c.ct /\ ~c.ca /\ ~c.cf
PlaneBox(s, c, tol, slack) ==
  LET i == c.s0 + 1  k == c.obj + 1  pl == s.planes[k]
  IN /\ Indices(c, i, 0, i, 0) /\ ~s.fixed[i] /\ Box(s, i)
     /\ VClose(c.n, pl.n, tol)
     /\ \E m \in 1..4 : RLe(PlaneDist(pl, CornerAt(s, s.q1, i, m)), slack) /\ VClose(c.p, CornerAt(s, s.q0, i, m), tol)
     /\ ~c.ct /\ ~c.ca /\ ~c.cf
TeleContact(s, c, tol, slack) ==
  LET i == c.s0 + 1  j == c.s1 + 1
      ra == Rad(s, i)  rb == Rad(s, j)
  IN /\ i < j /\ Indices(c, i, j, i, j) /\ c.obj = -1
     /\ \E mi \in ImagesMay(s, i, slack), mj \in ImagesMay(s, j, slack) :
          LET d == VSub(Place(s, mi, X(s.q0[i])), Place(s, mj, X(s.q0[j])))
              k == TeleKick(s, mi, mj)
              kick == RSign(VNorm2(k)) # 0
          IN /\ TeleMay(s, i, j, mi, mj, slack)
             /\ VClose(c.n, Unit(d), tol)
             /\ VClose(c.p, VSub(X(s.q0[i]), VScale(RDiv(ra, RAdd(ra, rb)), d)), tol)
             /\ VClose(c.knb, [m \in 1..2 |-> RNeg(RDot(k, c.basis[m]))], tol)
             /\ c.name = (IF kick THEN "kinematic_kick_circle_circle" ELSE "teleported_circle_circle")
             /\ kick \/ Close(c.depth, RMin(0, RSub(VNorm(d), RAdd(ra, rb))), tol)
     /\ c.ct /\ ~c.ca /\ ~c.cf

IsTele(c) == c.name \in {"teleported_circle_circle", "kinematic_kick_circle_circle"}
Valid(s, c, tol, slack) ==
  CASE c.name = "circle_circle" -> CircleCircle(s, c, tol, slack)
    [] c.name = "kinematic_object_circle" -> KinematicCircle(s, c, tol, slack)
    [] c.name = "body_body" -> BodyBody(s, c, tol, slack)
    [] c.name = "static_plane_circle" -> PlaneCircle(s, c, tol, slack)
    [] c.name = "static_plane_body" -> PlaneBox(s, c, tol, slack)
    [] IsTele(c) -> TeleContact(s, c, tol, slack)
    [] OTHER -> FALSE

(* all contacts, each once *)
Of(cs, name, a, b, obj) == {k \in 1..Len(cs) : cs[k].name = name /\ cs[k].b0 = a - 1 /\ cs[k].b1 = b - 1 /\ cs[k].obj = obj - 1}
TeleOf(cs, a, b) == {k \in 1..Len(cs) : IsTele(cs[k]) /\ cs[k].b0 = a - 1 /\ cs[k].b1 = b - 1}
Distinct(cs, ks, tol) == \A a, b \in ks : a # b => ~VClose(cs[a].p, cs[b].p, tol)
PairOk(s, cs, i, j, tol, slack) ==                    \* i < j
  LET cc == Of(cs, "circle_circle", i, j, 0)
      kk == Of(cs, "kinematic_object_circle", i, j, 0) \cup Of(cs, "kinematic_object_circle", j, i, 0)
      bb == Of(cs, "body_body", i, j, 0)
      tt == TeleOf(cs, i, j)
      neg == RNeg(slack)
  IN
  IF s.fixed[i] /\ s.fixed[j] THEN cc \cup kk \cup bb \cup tt = {}
  ELSE IF ~Box(s, i) /\ ~Box(s, j)
  THEN /\ bb = {} /\ Cardinality(cc \cup kk) <= 1
       /\ IF s.fixed[i] \/ s.fixed[j] THEN cc = {} ELSE kk = {}
       /\ CirclesMust(s, i, j, slack) => cc \cup kk # {}
       /\ Cardinality(tt) <= 1
       /\ (Len(s.portals) > 0 /\ \E mi \in ImagesMust(s, i, slack), mj \in ImagesMust(s, j, slack) : TeleMust(s, i, j, mi, mj, slack)) => tt # {}
  ELSE IF Box(s, i) /\ Box(s, j)
  THEN /\ cc \cup kk \cup tt = {}
       /\ bb = {} \/ \E k \in BoxBox(s, i, j) :
            /\ \A m \in bb : VClose(cs[m].n, k.n, tol) /\ \E h \in 1..2 : VClose(cs[m].p, k.pts[h].p, tol)
            /\ \A h \in 1..2 : RLe(Tiny, k.pts[h].d) => \E m \in bb : VClose(cs[m].p, k.pts[h].p, tol)
            /\ Cardinality(bb) <= 2
            /\ ~VClose(k.pts[1].p, k.pts[2].p, Tiny) => Distinct(cs, bb, Tiny)
       /\ RLe(BoxDepth(s, i, j), neg) => bb # {}
  ELSE LET circ == IF Box(s, i) THEN j ELSE i
           box  == IF Box(s, i) THEN i ELSE j
       IN /\ cc \cup tt = {} /\ Cardinality(kk \cup bb) <= 1
          /\ IF s.fixed[box] THEN bb = {} ELSE kk = {}
          /\ (\A k \in CircleBox(s, circ, box) : RLe(k.d, neg)) => kk \cup bb # {}
PlaneOk(s, cs, i, k, tol, slack) ==
  LET pc == Of(cs, "static_plane_circle", i, 0, k)
      pb == Of(cs, "static_plane_body", i, 0, k)
      neg == RNeg(slack)
  IN IF s.fixed[i] THEN pc \cup pb = {}
     ELSE IF Box(s, i)
     THEN /\ pc = {} /\ Distinct(cs, pb, tol)
          /\ \A m \in 1..4 : RLe(PlaneDist(s.planes[k], CornerAt(s, s.q1, i, m)), neg) => \E c \in pb : VClose(cs[c].p, CornerAt(s, s.q0, i, m), tol)
     ELSE /\ pb = {} /\ Cardinality(pc) <= 1
          /\ RLe(PlaneGap(s, i, k), neg) => pc # {}
Complete(s, cs, tol, slack) ==
  /\ \A i \in 1..N(s) : \A j \in (i+1)..N(s) : PairOk(s, cs, i, j, tol, slack)
  /\ \A i \in 1..N(s), k \in 1..Len(s.planes) : PlaneOk(s, cs, i, k, tol, slack)

(* what the kinematics of a contact are judged by *)
KinVel(s, c, v) ==
  LET At(x, lv, w) == LET a == VSub(c.p, x) IN << RSub(lv[1], RMul(w, a[2])), RAdd(lv[2], RMul(w, a[1])) >>
  IN CASE c.name = "static_plane_circle" -> At(s.planes[c.obj + 1].x, s.planes[c.obj + 1].v, s.planes[c.obj + 1].w)
       [] c.name = "kinematic_object_circle" -> LET j == c.b1 + 1 IN At(X(s.q0[j]), << v[3*j-2], v[3*j-1] >>, v[3*j])
       [] IsTele(c) -> VNeg(VAdd(VScale(c.knb[1], c.basis[1]), VScale(c.knb[2], c.basis[2])))
       [] OTHER -> << 0, 0 >>
Arm0(s, c) == VSub(c.p, X(s.q0[c.s0 + 1]))
Arm1(s, c) == IF c.s1 < 0 THEN << 0, 0 >>
              ELSE IF IsTele(c) THEN VScale(RNeg(RDiv(Rad(s, c.s1 + 1), Rad(s, c.s0 + 1))), Arm0(s, c))
              ELSE VSub(c.p, X(s.q0[c.s1 + 1]))
=============================================================================
