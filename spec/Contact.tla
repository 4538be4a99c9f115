------------------------------ MODULE Contact ------------------------------
(***************************************************************************)
(* What a contact constraint must report about itself, in any of the       *)
(* simulators: a contact joins body i (and body j, or nothing) at arms     *)
(* ai, aj from their centres of mass with unit normal n pointing towards   *)
(* body i; the other side may move with a prescribed velocity kin.         *)
(*                                                                         *)
(* Layouts of the velocity vector of N bodies:                             *)
(*   "b2"  (vx,vy) per body                     balls, no rotation         *)
(*   "r2"  (vx,vy,w) per body                   planar rigid bodies        *)
(*   "r3"  all (vx,vy,vz), then all (wx,wy,wz)  spatial rigid bodies       *)
(* Body indices are 1-based here, 0 for "no body".                         *)
(***************************************************************************)
EXTENDS Num, FiniteSets

Dim(lay)  == IF lay = "r3" THEN 3 ELSE 2
Zero(k)   == [a \in 1..k |-> 0]
NDof(lay, N) == CASE lay = "b2" -> 2 * N [] lay = "r2" -> 3 * N [] lay = "r3" -> 6 * N

\* the generalised force on one body of a unit force d acting at arm a
BodyRow(lay, a, d) ==
  CASE lay = "b2" -> d
    [] lay = "r2" -> << d[1], d[2], Cross2(a, d) >>
    [] lay = "r3" -> d \o Cross3(a, d)

\* body i's slice of a velocity-space vector
Slice(lay, N, v, i) ==
  CASE lay = "b2" -> << v[2*i-1], v[2*i] >>
    [] lay = "r2" -> << v[3*i-2], v[3*i-1], v[3*i] >>
    [] lay = "r3" -> << v[3*i-2], v[3*i-1], v[3*i], v[3*N+3*i-2], v[3*N+3*i-1], v[3*N+3*i] >>

\* velocity of the material point of body i at arm a
PointVel(lay, N, v, i, a) ==
  LET s == Slice(lay, N, v, i) IN
  CASE lay = "b2" -> s
    [] lay = "r2" -> << RSub(s[1], RMul(s[3], a[2])), RAdd(s[2], RMul(s[3], a[1])) >>
    [] lay = "r3" -> VAdd(<< s[1], s[2], s[3] >>, Cross3(<< s[4], s[5], s[6] >>, a))

\* column of the generalised contact matrix for direction d
Column(lay, N, i, j, ai, aj, d) ==
  LET bi == BodyRow(lay, ai, d)
      bj == IF j = 0 THEN << >> ELSE BodyRow(lay, aj, d)
      w  == IF lay = "b2" THEN 2 ELSE 3
      At(k) == LET body == ((k - 1) \div w) + 1
                   c == ((k - 1) % w) + 1
               IN IF lay = "r3" /\ body > N
                  THEN IF body - N = i THEN bi[3 + c] ELSE IF body - N = j THEN RNeg(bj[3 + c]) ELSE 0
                  ELSE IF body = i THEN bi[c] ELSE IF body = j THEN RNeg(bj[c]) ELSE 0
  IN [k \in 1..NDof(lay, N) |-> At(k)]

IsBasis(lay, b, n, tol) ==                      \* right-handed orthonormal, first vector the normal
  /\ Len(b) = Dim(lay)
  /\ VClose(b[1], n, tol)
  /\ \A x, y \in 1..Dim(lay) : Close(RDot(b[x], b[y]), IF x = y THEN 1 ELSE 0, tol)
  /\ IF lay = "r3" THEN VClose(Cross3(b[1], b[2]), b[3], tol) ELSE VClose(Perp(b[1]), b[2], tol)

\* in space the first tangent opposes the sliding, wherever there is some
Slide(rel, n) == VSub(rel, VScale(RDot(n, rel), n))
Opposes(t, rel, n) ==
  LET u == Slide(rel, n)  s == VNorm(u) IN RLe(s, "1e-3") \/ VClose(VScale(s, t), VNeg(u), "1e-9")
\* the sampled friction directions: unit tangents, evenly spaced about the normal, each with the
\* generalised force and the prescribed velocity belonging to it
DiskDir(lay, N, c, i, k) == LET sl == Slice(lay, N, c.disk[k], i) IN [a \in 1..Dim(lay) |-> sl[a]]
Disk(lay, N, c, i, j, n, ai, aj, kin, tol) ==
  LET K == Len(c.disk) IN
  /\ lay = "r3" => Opposes(DiskDir(lay, N, c, i, 1), c.rel, n)
  /\ c.diskok /\ Len(c.drel) = K
  /\ \A k \in 1..K :
       LET t == DiskDir(lay, N, c, i, k) IN
       /\ Close(RDot(t, t), 1, tol) /\ Close(RDot(t, n), 0, tol)
       /\ VClose(c.disk[k], Column(lay, N, i, j, ai, aj, t), tol)
       /\ Close(c.drel[k], RNeg(RDot(kin, t)), tol)
  /\ lay = "r3" => \A k \in 1..(K - 1) :
       LET t == DiskDir(lay, N, c, i, k)  u == DiskDir(lay, N, c, i, k + 1)
           a == RDiv(RMul(2, RPi), K)
       IN VClose(u, VAdd(VScale(RCos(a), t), VScale(RSin(a), Cross3(n, t))), tol)
\* the pairwise resolution of an approach speed of 0.75 (both arms along the normal)
Resolve(lay, N, c, i, j, n, tol) ==
  LET im == RAdd(RDiv(1, c.m0), IF j = 0 THEN 0 ELSE RDiv(1, c.m1))
      al == RDiv(RMul(RAdd(1, c.cor), "0.75"), im)
      w  == IF lay = "b2" THEN 2 ELSE 3
  IN /\ Close(c.alpha, al, tol)
     /\ VClose(c.dv, [k \in 1..NDof(lay, N) |->
          LET body == ((k - 1) \div w) + 1
              cc   == ((k - 1) % w) + 1
              lin  == cc <= Dim(lay) /\ body <= N IN
          IF lin /\ body = i THEN RDiv(RMul(al, n[cc]), c.m0)
          ELSE IF lin /\ body = j THEN RNeg(RDiv(RMul(al, n[cc]), c.m1)) ELSE 0], tol)

\* c: what the constraint reported.  i, j: bodies (simulated).  kin: prescribed velocity of the
\* other side at the contact (all zero when there is none).  v: velocity it was evaluated at.
Kinematics(lay, N, c, i, j, n, ai, aj, kin, v, tol) ==
  LET rel == VSub(IF j = 0 THEN PointVel(lay, N, v, i, ai)
                  ELSE VSub(PointVel(lay, N, v, i, ai), PointVel(lay, N, v, j, aj)), kin)
      nv  == RDot(n, rel)
      D   == Dim(lay)
  IN
  /\ VClose(c.rel, rel, tol)
  /\ Close(c.nv, nv, tol)
  /\ IsBasis(lay, c.basis, n, tol)
  /\ lay = "r3" => Opposes(c.basis[2], rel, n)
  /\ VClose(c.knb, [k \in 1..D |-> RNeg(RDot(kin, c.basis[k]))], tol)
  /\ c.cb = c.basis /\ VClose(c.ib, n, tol)                      \* the bases the solvers are handed
  /\ "kn" \in DOMAIN c => Close(c.kn, RNeg(RDot(n, kin)), tol) /\ c.knok
  /\ \A k \in 1..D : /\ c.G[k] = << >> \/ VClose(c.G[k], Column(lay, N, i, j, ai, aj, c.basis[k]), tol)
                     /\ VClose(c.H0[k], BodyRow(lay, ai, c.basis[k]), tol)
                     /\ j # 0 => VClose(c.H1[k], BodyRow(lay, aj, c.basis[k]), tol)
  /\ c.nnz <= c.stencil
  /\ "disk" \in DOMAIN c => Disk(lay, N, c, i, j, n, ai, aj, kin, tol)
  /\ "alpha" \in DOMAIN c => Resolve(lay, N, c, i, j, n, tol)
  \* restitution and prescribed motion enter the friction solver as CoR * nv + 0.375 along n, 0.25 * k along t_k
  /\ VClose(c.w, VAdd(VScale(RAdd(RMul(c.cor, nv), "0.375"), c.basis[1]),
                      IF D = 2 THEN VScale("0.25", c.basis[2])
                      ELSE VAdd(VScale("0.25", c.basis[2]), VScale("0.5", c.basis[3]))), tol)

Indices(c, i, j, bi, bj) ==      \* simulated bodies i, j; all bodies bi, bj  (0 = none)
  /\ c.s0 = i - 1 /\ c.s1 = j - 1 /\ c.b0 = bi - 1 /\ c.b1 = bj - 1
  /\ c.c0 = c.s0 /\ c.c1 = c.s1 /\ c.c2 = c.b0 /\ c.c3 = c.b1
Unit(v) == LET s == VNorm(v) IN [k \in 1..Len(v) |-> RDiv(v[k], s)]
=============================================================================
