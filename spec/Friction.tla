------------------------------ MODULE Friction ------------------------------
(***************************************************************************)
(* Contact with Coulomb friction.  A problem has contacts between bodies   *)
(* i and j (0: none), each with an orthonormal basis (normal first), the   *)
(* rows H0, H1 mapping a basis direction to generalised forces on the two  *)
(* bodies, and the relative velocity rel at v0, whose part not due to the  *)
(* bodies' own motion is the prescribed velocity of the other side.        *)
(* An answer has a normal impulse a and tangential impulses b per contact. *)
(***************************************************************************)
EXTENDS Impact, Contact
Stride(lay) == IF lay = "b2" THEN 2 ELSE 3
\* generalised direction k of contact c
Dir(lay, N, c, k) ==
  LET w == Stride(lay)
      At(r) == LET body == ((r - 1) \div w) + 1  cc == ((r - 1) % w) + 1
                   rot == lay = "r3" /\ body > N
                   bd == IF rot THEN body - N ELSE body
                   col == IF rot THEN 3 + cc ELSE cc
               IN IF bd = c.i THEN c.H0[k][col] ELSE IF bd = c.j THEN RNeg(c.H1[k][col]) ELSE 0
  IN TLCEval([r \in 1..NDof(lay, N) |-> RMul(At(r), 1)])
T(p) == Dim(p.lay) - 1
\* the generalised directions of all contacts: normals, and tangents contact by contact
Normals(p) == TLCEval([c \in 1..Len(p.cs) |-> Dir(p.lay, p.n, p.cs[c], 1)])
Tangents(p) == TLCEval([m \in 1..(T(p) * Len(p.cs)) |-> Dir(p.lay, p.n, p.cs[((m - 1) \div T(p)) + 1], ((m - 1) % T(p)) + 2)])
KinN(p) == [c \in 1..Len(p.cs) |-> RSub(RDot(p.cs[c].rel, p.cs[c].b[1]), RDot(Dir(p.lay, p.n, p.cs[c], 1), p.v0))]
KinT(p) == [m \in 1..(T(p) * Len(p.cs)) |->
             LET c == p.cs[((m - 1) \div T(p)) + 1]  k == ((m - 1) % T(p)) + 2 IN RSub(RDot(c.rel, c.b[k]), RDot(Dir(p.lay, p.n, c, k), p.v0))]
Force(D, b) == TLCEval(Sum(D, b, Len(D)))
Outgoing(p, Ns, Ds, a, f) == TLCEval(VAdd(p.v0, Mat(p.Minv, TLCEval(VAdd(Sum(Ns, a, Len(Ns)), f)))))
\* projection on the Coulomb cone |t| <= m n
Cone(m, x) ==
  LET n == x[1]  t == Tail(x)  s == VNorm(t) IN
  IF RLe(s, RMul(m, n)) THEN x
  ELSE IF RLe(RMul(m, s), RNeg(n)) THEN [k \in 1..Len(x) |-> RMul(0, 1)]
  ELSE LET k == RDiv(RAdd(n, RMul(m, s)), RAdd(1, RMul(m, m))) IN << k >> \o VScale(RDiv(RMul(m, k), s), t)
\* how far (a, b) is from obeying non-penetration, restitution and Coulomb's law; xn, xd added to the prescribed velocities
Coulomb(p, Ns, Ds, a, b, v, xn, xd) ==
  LET kn == TLCEval(KinN(p))  kt == TLCEval(KinT(p))
      E(c) == LET un == RAdd(RAdd(RDot(Ns[c], v), RMul(p.cor[c], RAdd(RDot(Ns[c], p.v0), kn[c]))), RAdd(kn[c], xn[c]))
                  ut == [k \in 1..T(p) |-> LET m == T(p) * (c - 1) + k IN RAdd(RDot(Ds[m], v), RAdd(kt[m], xd[m]))]
                  u == << RAdd(un, RMul(p.mu[c], VNorm(ut))) >> \o ut
                  r == << a[c] >> \o [k \in 1..T(p) |-> b[T(p) * (c - 1) + k]]
              IN VInf(VSub(r, Cone(p.mu[c], TLCEval(VSub(r, u)))))
  IN TLCEval(MaxAbs(TLCEval([c \in 1..Len(p.cs) |-> E(c)]), Len(p.cs)))
Scale(p, a, b) == RMax(1, RMax(VInf(p.v0), RMax(VInf(a), VInf(b))))
Involved(p, i) == \E c \in 1..Len(p.cs) : p.cs[c].i = i \/ p.cs[c].j = i
Zeros(k) == [i \in 1..k |-> RMul(0, 1)]

\* the coupled solver
Solver(p) ==
  LET Ns == Normals(p)  Ds == Tangents(p)
      f == Force(Ds, p.b)
      v == Outgoing(p, Ns, Ds, p.a, f)
      s == Scale(p, p.a, p.b)
      tol == "1e-8"
      err == Coulomb(p, Ns, Ds, p.a, p.b, p.v, p.xn, p.xd)
      slop == RMul("1e-9", s)
  IN /\ Len(p.a) = Len(p.cs) /\ Len(p.b) = T(p) * Len(p.cs) /\ p.per = T(p)
     /\ VFinite(p.a) /\ VFinite(p.b) /\ VFinite(p.v)
     /\ VClose(p.f, f, tol) /\ VClose(p.v, v, tol)
     /\ \A i \in 1..p.n : ~Involved(p, i) => VEq(Slice(p.lay, p.n, p.v, i), Slice(p.lay, p.n, p.v0, i))
     /\ RLe(RAbs(RSub(p.err, err)), slop)
     /\ p.ok = RLt(p.err, p.tol)
     /\ \A c \in 1..Len(p.cs) : /\ RLe(RNeg(slop), p.a[c])                   \* inside the cones
                                /\ RLe(VNorm([k \in 1..T(p) |-> p.b[T(p)*(c-1)+k]]), RAdd(RMul(p.mu[c], p.a[c]), slop))
     /\ p.ok => VClose(p.a2, p.a, tol) /\ VClose(p.b2, p.b, tol) /\ VClose(p.v2, p.v, tol)   \* a solution stays put
     /\ p.ix = p.ix2

\* alternating impact and friction projections.  k calls explained, (a, b, f): where it is, best: the best so far
ImpactCall(p, c, Ns, a, f) ==
  LET vb == VAdd(p.v0, Mat(p.Minv, f)) IN
  /\ c.k = "i" /\ VEq(c.v0, p.v0) /\ VClose(c.v0F, vb, "1e-9") /\ Len(c.N) = Len(Ns)
  /\ \A i \in 1..Len(Ns) : VClose(c.N[i], Ns[i], "1e-12")
  /\ VClose(c.nrel, KinN(p), "1e-9") /\ VEq(c.cor, p.cor)
  /\ VEq(c.a0, IF p.wa THEN a ELSE Zeros(Len(Ns)))
FrictionCall(p, c, Ns, Ds, a, b, warm) ==
  /\ c.k = "f" /\ REq(c.t, p.t) /\ VClose(c.v0, After(p.Minv, Ns, p.v0, a), "1e-9") /\ Len(c.D) = Len(Ds)
  /\ \A i \in 1..Len(Ds) : VClose(c.D[i], Ds[i], "1e-12")
  /\ VClose(c.drel, KinT(p), "1e-9") /\ VEq(c.mu, p.mu) /\ VEq(c.al, a)
  /\ VEq(c.b0, IF warm THEN b ELSE Zeros(Len(Ds)))
QuadsHold(p, Ns, Ds) ==
  LET wn == TLCEval([j \in 1..Len(Ns) |-> Mat(p.Minv, Ns[j])])  wd == TLCEval([j \in 1..Len(Ds) |-> Mat(p.Minv, Ds[j])])
      qn == TLCEval([j \in 1..Len(Ns) |-> [i \in 1..Len(Ns) |-> RDot(Ns[i], wn[j])]])
      qd == TLCEval([j \in 1..Len(Ds) |-> [i \in 1..Len(Ds) |-> RDot(Ds[i], wd[j])]]) IN
  \A k \in 1..Len(p.calls) : LET c == p.calls[k]  q == IF c.k = "i" THEN qn ELSE qd IN
    Len(c.Q) = Len(q) /\ \A j \in 1..Len(q) : VClose(c.Q[j], q[j], "1e-9")
RECURSIVE Stagger(_, _, _, _, _, _)
\* s = [a, b, f, ba, bb, be, near]: current impulses, best so far with its error (no best yet: be = "inf"), near ties
Stagger(p, Ns, Ds, k, itr, s) ==
  LET finish(a, b) ==                                         \* the last impact solve and the answer
        LET f == Force(Ds, b)  c == p.calls[k + 1] IN
        /\ Len(p.calls) = k + 1 /\ ImpactCall(p, c, Ns, a, f)
        /\ VEq(p.a, c.a) /\ VEq(p.b, b) /\ VClose(p.f, f, "1e-10")
        /\ LET v == Outgoing(p, Ns, Ds, c.a, f)
               err == Coulomb(p, Ns, Ds, c.a, b, v, Zeros(Len(Ns)), Zeros(Len(Ds))) IN
           /\ VClose(p.v, v, "1e-9") /\ RLe(RAbs(RSub(p.err, err)), RMul("1e-9", Scale(p, c.a, b))) /\ p.ok = RLe(p.err, p.tol)
  IN IF itr = p.max THEN s.near \/ finish(s.ba, s.bb)
     ELSE /\ Len(p.calls) >= k + 3
          /\ LET ci == p.calls[k + 1]  cf == p.calls[k + 2] IN
             /\ ImpactCall(p, ci, Ns, s.a, s.f)
             /\ FrictionCall(p, cf, Ns, Ds, ci.a, s.b, p.wb)
             /\ LET f == Force(Ds, cf.b)
                    v == Outgoing(p, Ns, Ds, ci.a, f)
                    e == Coulomb(p, Ns, Ds, ci.a, cf.b, v, Zeros(Len(Ns)), Zeros(Len(Ds)))
                    better == s.first \/ RLt(e, s.be)
                    tie == ~s.first /\ RLe(RAbs(RSub(e, s.be)), RMul("1e-10", Scale(p, ci.a, cf.b)))
                    edge == RLe(RAbs(RSub(e, p.tol)), RMul("1e-10", Scale(p, ci.a, cf.b)))
                    n == [a |-> ci.a, b |-> cf.b, f |-> f, ba |-> IF better THEN ci.a ELSE s.ba, bb |-> IF better THEN cf.b ELSE s.bb,
                          be |-> IF better THEN e ELSE s.be, near |-> s.near \/ tie, first |-> FALSE] IN
                IF edge THEN TRUE
                ELSE IF RLe(e, p.tol) THEN LET c == p.calls[k + 3] IN
                       Stagger([p EXCEPT !.max = itr + 1], Ns, Ds, k + 2, itr + 1, [n EXCEPT !.ba = ci.a, !.bb = cf.b, !.near = FALSE])
                ELSE Stagger(p, Ns, Ds, k + 2, itr + 1, n)
Staggered(p) ==
  LET Ns == Normals(p)  Ds == Tangents(p) IN
  /\ QuadsHold(p, Ns, Ds) /\ p.ix = p.ix2
  /\ Stagger(p, Ns, Ds, 0, 0, [a |-> p.a0, b |-> p.b0, f |-> p.f0, ba |-> p.a0, bb |-> p.b0, be |-> RMul(0, 1), near |-> FALSE, first |-> TRUE])
\* one impact solve, then one friction solve
OneShot(p) ==
  LET Ns == Normals(p)  Ds == Tangents(p) IN
  /\ QuadsHold(p, Ns, Ds) /\ p.ix = p.ix2 /\ Len(p.calls) = 2
  /\ ImpactCall([p EXCEPT !.wa = FALSE], p.calls[1], Ns, p.a0, Zeros(Len(p.v0)))
  /\ FrictionCall(p, p.calls[2], Ns, Ds, p.calls[1].a, p.b0, FALSE)
  /\ VEq(p.a, p.calls[1].a) /\ VEq(p.b, p.calls[2].b) /\ p.ok
  /\ VClose(p.v, Outgoing(p, Ns, Ds, p.a, Force(Ds, p.b)), "1e-9")
=============================================================================
