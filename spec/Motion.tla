------------------------------- MODULE Motion -------------------------------
(***************************************************************************)
(* Unconstrained motion over one step of length dt, body by body, under a  *)
(* force field F(q).  An event carries the configuration q and velocity v  *)
(* before, q1 and v1 after, masses m in the order of the velocities, and   *)
(* the configuration `ahead' reached by moving straight on at v.           *)
(***************************************************************************)
EXTENDS Num, TLC
Tol == "1e-10"
Force(ev, q) == TLCEval([i \in 1..Len(ev.a) |-> RAdd(ev.a[i], RMul(ev.b[i], q[((3 * (i - 1) + 2) % Len(q)) + 1]))])
Half(x) == RDiv(x, 2)
(* ------------------------------ the plane ------------------------------ *)
Dofs(ev) == Len(ev.v) \div ev.n
BodyOf(ev, i) == ((i - 1) \div Dofs(ev)) + 1
\* scripted planar rigid bodies feel no force; balls have no scripted bodies
Pull(ev, q) == LET F == Force(ev, q) IN TLCEval([i \in 1..Len(F) |-> IF ev.lay = "r2" /\ ev.fixed[BodyOf(ev, i)] THEN RMul(0, 1) ELSE RDiv(F[i], ev.m[i])])
Plane(ev) ==
  LET a0 == Pull(ev, ev.q) IN
  /\ VClose(ev.ahead, VAdd(ev.q, VScale(ev.dt, ev.v)), Tol)
  /\ IF ev.map = "symplectic_euler"
     THEN LET v1 == TLCEval(VAdd(ev.v, VScale(ev.dt, a0))) IN VClose(ev.v1, v1, Tol) /\ VClose(ev.q1, VAdd(ev.q, VScale(ev.dt, v1)), Tol)
     ELSE LET vh == TLCEval(VAdd(ev.v, VScale(Half(ev.dt), a0)))
              q1 == TLCEval(VAdd(ev.q, VScale(ev.dt, vh))) IN
          /\ VClose(ev.q1, q1, Tol)
          /\ VClose(ev.v1, VAdd(vh, VScale(Half(ev.dt), Pull(ev, q1))), Tol)
(* ------------------------------ in space ------------------------------- *)
X(q, i) == SubSeq(q, 3 * (i - 1) + 1, 3 * i)
Rm(q, n, i) == SubSeq(q, 3 * n + 9 * (i - 1) + 1, 3 * n + 9 * i)       \* row by row
W(v, n, i) == SubSeq(v, 3 * n + 3 * (i - 1) + 1, 3 * n + 3 * i)
Row(R, r) == SubSeq(R, 3 * r - 2, 3 * r)
Col(R, c) == << R[c], R[c + 3], R[c + 6] >>
Ap(R, x) == << RDot(Row(R, 1), x), RDot(Row(R, 2), x), RDot(Row(R, 3), x) >>
ApT(R, x) == << RDot(Col(R, 1), x), RDot(Col(R, 2), x), RDot(Col(R, 3), x) >>
Mul(A, B) == [k \in 1..9 |-> RDot(Row(A, ((k - 1) \div 3) + 1), Col(B, ((k - 1) % 3) + 1))]
Tr(A) == << A[1], A[4], A[7], A[2], A[5], A[8], A[3], A[6], A[9] >>
Id == << 1, 0, 0, 0, 1, 0, 0, 0, 1 >>
Det(R) == RDot(Row(R, 1), Cross3(Row(R, 2), Row(R, 3)))
Rotation(R) == VClose(Mul(R, Tr(R)), Id, "1e-9") /\ RSign(Det(R)) = 1
Times(D, x) == << RMul(D[1], x[1]), RMul(D[2], x[2]), RMul(D[3], x[3]) >>
Over(D, x) == << RDiv(x[1], D[1]), RDiv(x[2], D[2]), RDiv(x[3], D[3]) >>
\* x turned by the angle th about the unit axis u
Turn(u, th, x) == VAdd(VAdd(VScale(RCos(th), x), VScale(RSin(th), Cross3(u, x))), VScale(RMul(RSub(1, RCos(th)), RDot(u, x)), u))
TurnM(u, th) == Tr(Turn(u, th, << 1, 0, 0 >>) \o Turn(u, th, << 0, 1, 0 >>) \o Turn(u, th, << 0, 0, 1 >>))
Axis(k) == CASE k = 1 -> << 1, 0, 0 >> [] k = 2 -> << 0, 1, 0 >> [] k = 3 -> << 0, 0, 1 >>
Still(ev, q1, i) == VEq(X(q1, i), X(ev.q, i)) /\ VEq(Rm(q1, ev.n, i), Rm(ev.q, ev.n, i))
\* at constant velocity and constant spin
Ahead3(ev, i) ==
  IF ev.fixed[i] THEN Still(ev, ev.ahead, i)
  ELSE /\ VClose(X(ev.ahead, i), VAdd(X(ev.q, i), VScale(ev.dt, X(ev.v, i))), Tol)
       /\ LET w == W(ev.v, ev.n, i)  s == TLCEval(VNorm(w))  R0 == Rm(ev.q, ev.n, i) IN
          VClose(Rm(ev.ahead, ev.n, i), IF RSign(s) = 0 THEN R0 ELSE Mul(TLCEval(TurnM(TLCEval(VScale(RDiv(1, s), w)), RMul(s, ev.dt))), R0), Tol)
\* one free rotation about body axis k over time h: orientation and body momentum
Spin(I, s, k, h) ==
  LET th == TLCEval(RDiv(RMul(h, s.p[k]), I[k])) IN
  TLCEval([R |-> Mul(s.R, TLCEval(TurnM(Axis(k), th))), p |-> Turn(Axis(k), RNeg(th), s.p)])
Split(R0, p0, I, dt) ==
  LET h == Half(dt) IN Spin(I, Spin(I, Spin(I, Spin(I, Spin(I, [R |-> R0, p |-> p0], 3, h), 2, h), 1, dt), 2, h), 3, h).R
\* the discrete Moser-Veselov relation between body momentum p and the step's rotation E = R0' R1
Dmv(R0, R1, p, I, dt) ==
  LET E == TLCEval(Mul(Tr(R0), R1))
      w == TLCEval(RAdd(1, RAdd(E[1], RAdd(E[5], E[9]))))
      c == TLCEval(VScale(RDiv(1, w), << RSub(E[8], E[6]), RSub(E[3], E[7]), RSub(E[4], E[2]) >>))
      am == TLCEval(VScale(Half(dt), Over(I, p)))
      al == TLCEval(RAdd(1, RDot(c, c)))
      gy == << RMul(RDiv(RSub(I[2], I[3]), I[1]), RMul(c[2], c[3])), RMul(RDiv(RSub(I[3], I[1]), I[2]), RMul(c[1], c[3])), RMul(RDiv(RSub(I[1], I[2]), I[3]), RMul(c[1], c[2])) >>
  IN /\ RLt("0.5", w) /\ RLt(VInf(c), 1)
     /\ VClose(c, VAdd(VScale(al, am), gy), Tol)
Hamiltonian(ev, i, F0, F1) ==
  LET n == ev.n  m == ev.m[3 * i]  I == W(ev.m, n, i)
      R0 == Rm(ev.q, n, i)  R1 == Rm(ev.q1, n, i)
      h == Half(ev.dt)
      L == TLCEval(VAdd(Ap(R0, Times(I, ApT(R0, W(ev.v, n, i)))), VScale(h, W(F0, n, i))))
      L1 == TLCEval(VAdd(L, VScale(h, W(F1, n, i)))) IN
  /\ VClose(X(ev.q1, i), VAdd(X(ev.q, i), VScale(ev.dt, VAdd(X(ev.v, i), VScale(RDiv(h, m), X(F0, i))))), Tol)
  /\ VClose(X(ev.v1, i), VAdd(X(ev.v, i), VScale(RDiv(h, m), VAdd(X(F0, i), X(F1, i)))), Tol)
  /\ Rotation(R1)
  /\ IF ev.map = "dmv" THEN Dmv(R0, R1, TLCEval(ApT(R0, L)), I, ev.dt) ELSE VClose(R1, Split(R0, TLCEval(ApT(R0, L)), I, ev.dt), Tol)
  /\ VClose(W(ev.v1, n, i), Ap(R1, Over(I, ApT(R1, L1))), Tol)
\* the rotation nearest to the linearised orientation: B' R symmetric with positive leading minors
Nearest(A, R) ==
  LET P == TLCEval(Mul(Tr(R), A)) IN
  /\ Rotation(R) /\ VClose(P, Tr(P), Tol)
  /\ RSign(P[1]) = 1 /\ RSign(RSub(RMul(P[1], P[5]), RMul(P[2], P[4]))) = 1 /\ RSign(Det(P)) = 1
Linearised(ev, i, F0) ==
  LET n == ev.n  m == ev.m[3 * i]  I == W(ev.m, n, i)  R0 == Rm(ev.q, n, i)  w == W(ev.v, n, i)
      Sx == << 0, RNeg(w[3]), w[2], w[3], 0, RNeg(w[1]), RNeg(w[2]), w[1], 0 >> IN
  /\ VClose(X(ev.q1, i), VAdd(X(ev.q, i), VScale(ev.dt, X(ev.v, i))), Tol)
  /\ Nearest(TLCEval(VAdd(R0, VScale(ev.dt, Mul(Sx, R0)))), Rm(ev.q1, n, i))
  /\ VClose(X(ev.v1, i), VAdd(X(ev.v, i), VScale(RDiv(ev.dt, m), X(F0, i))), Tol)
  /\ VClose(W(ev.v1, n, i), VAdd(w, VScale(ev.dt, Ap(R0, Over(I, ApT(R0, W(F0, n, i)))))), Tol)
Space(ev) ==
  LET F0 == Force(ev, ev.q)  F1 == Force(ev, ev.q1) IN
  \A i \in 1..ev.n :
    /\ Ahead3(ev, i)
    /\ IF ev.map = "exponential_euler" THEN Linearised(ev, i, F0)
       ELSE IF ev.fixed[i] THEN Still(ev, ev.q1, i) /\ RSign(VInf(X(ev.v1, i))) = 0 /\ RSign(VInf(W(ev.v1, ev.n, i))) = 0
       ELSE Hamiltonian(ev, i, F0, F1)
Move(ev) ==
  /\ ev.kept /\ VFinite(ev.q1) /\ VFinite(ev.v1)
  /\ Len(ev.q1) = Len(ev.q) /\ Len(ev.v1) = Len(ev.v)
  /\ IF ev.lay = "r3" THEN Space(ev) ELSE Plane(ev)
=============================================================================
