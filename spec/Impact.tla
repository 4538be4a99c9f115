------------------------------- MODULE Impact -------------------------------
(***************************************************************************)
(* Simultaneous impacts.  A problem has generalised normals N (a sequence  *)
(* of columns), the inverse mass matrix W (a sequence of columns),         *)
(* prescribed normal velocities nrel, restitution coefficients cor, the    *)
(* velocity v0 before the impact and v0F after other impulses.  An impact  *)
(* operator answers with one impulse per normal.                           *)
(***************************************************************************)
EXTENDS Num, TLC
Mat(W, x) == [r \in 1..Len(x) |-> RDot([c \in 1..Len(x) |-> W[c][r]], x)]         \* W x
RECURSIVE Sum(_, _, _)
Sum(N, a, k) == IF k = 0 THEN [r \in 1..Len(N[1]) |-> RMul(0, 1)]
                ELSE VAdd(Sum(N, a, k - 1), VScale(a[k], N[k]))                     \* N a
After(W, N, v, a) == IF Len(N) = 0 THEN v ELSE VAdd(v, Mat(W, TLCEval(Sum(N, a, Len(N)))))   \* v + W N a
NormalVel(N, nrel, v) == [i \in 1..Len(N) |-> RAdd(RDot(N[i], v), nrel[i])]
\* what must be complementary to the impulses: outgoing normal velocity plus restitution of the incoming one
Slack(W, N, nrel, cor, v0, v0F, a) ==
  LET out == NormalVel(N, nrel, After(W, N, v0F, a))
      inc == NormalVel(N, nrel, v0)
  IN [i \in 1..Len(N) |-> RAdd(out[i], RMul(cor[i], inc[i]))]
RECURSIVE MaxAbs(_, _)
MaxAbs(f, k) == IF k = 0 THEN RMul(0, 1) ELSE RMax(MaxAbs(f, k - 1), RAbs(f[k]))
MinMap(a, w) == MaxAbs([i \in 1..Len(a) |-> RMin(a[i], w[i])], Len(a))
Residual(W, N, nrel, cor, v0, v0F, a) == MinMap(a, Slack(W, N, nrel, cor, v0, v0F, a))
NonNeg(a) == \A i \in 1..Len(a) : RLe(0, a[i])
Uniform(c) == \A i \in 1..Len(c) : REq(c[i], c[1])
Proj(a) == [i \in 1..Len(a) |-> RMax(a[i], 0)]
\* twice the kinetic energy gained: 2 a.N'v0 + a.N'W N a
Gain(W, N, v0, a) ==
  LET s == TLCEval(Sum(N, a, Len(N))) IN RAdd(RMul(2, RDot(s, v0)), RDot(s, Mat(W, s)))

Lcp(p, a, tol, max) ==
  LET W == p.Minv  scale == RMax(1, RMax(VInf(a), RMax(VInf(p.v0), VInf(p.v0F))))
      slop == RMul("1e-11", scale)
      res == Residual(W, p.N, p.nrel, p.cor, p.v0, p.v0F, a)
      start == Residual(W, p.N, p.nrel, p.cor, p.v0, p.v0F, Proj(p.a0))
  IN /\ Len(a) = Len(p.N) /\ VFinite(a) /\ NonNeg(a)
     /\ RLe(res, RAdd(RMax(start, tol), slop))                        \* never worse than the guess it was given
     /\ (p.posed /\ max >= 100000) =>
          /\ RLe(res, RAdd(tol, slop))
          /\ (Uniform(p.cor) /\ RSign(VInf(p.nrel)) = 0 /\ VEq(p.v0, p.v0F)) =>     \* no energy from nowhere
               RLe(Gain(W, p.N, p.v0, a), RMul("1e-5", RMul(scale, scale)))

(* Generalised reflections: the violated normals are solved on their own, again and again. *)
Violated(p, v, vtol) == {i \in 1..Len(p.N) : RLt(RAdd(RDot(p.N[i], v), p.nrel[i]), RNeg(vtol))}
Unclear(p, v, vtol) == \E i \in 1..Len(p.N) : RLt(RAbs(RAdd(RAdd(RDot(p.N[i], v), p.nrel[i]), vtol)), "1e-11")
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN << >> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN << m >> \o Asc(S \ {m})
Sub(f, ix) == [k \in 1..Len(ix) |-> f[ix[k]]]
QuadHolds(W, N, Q, tol) ==
  LET WN == TLCEval([j \in 1..Len(N) |-> Mat(W, N[j])]) IN
  Len(Q) = Len(N) /\ \A j \in 1..Len(N) : VClose(Q[j], [i \in 1..Len(N) |-> RDot(N[i], WN[j])], tol)
RECURSIVE Reflections(_, _, _, _)
\* k sub-solves done, a the impulses so far: the rest of the run explains the answer
Reflections(p, k, a, tol) ==
  LET v == TLCEval(After(p.Minv, p.N, p.v0F, a))
      inner == p.inner IN
  IF Unclear(p, v, p.vtol) /\ Len(inner) = k THEN VClose(p.a, a, tol)
  ELSE IF Unclear(p, v, p.vtol) THEN TRUE
  ELSE LET ix == Asc(Violated(p, v, p.vtol)) IN
    IF ix = << >> THEN Len(inner) = k /\ VClose(p.a, a, tol)
    ELSE /\ Len(inner) > k
         /\ LET c == inner[k + 1] IN
            /\ VClose(c.v0, v, tol) /\ VClose(c.v0F, v, tol)
            /\ Len(c.N) = Len(ix) /\ \A i \in 1..Len(ix) : VEq(c.N[i], p.N[ix[i]])
            /\ VEq(c.nrel, Sub(p.nrel, ix)) /\ VEq(c.cor, Sub(p.cor, ix))
            /\ QuadHolds(p.Minv, c.N, c.Q, tol)
            /\ RSign(VInf(c.a0)) = 0
            /\ Reflections(p, k + 1,
                 TLCEval([i \in 1..Len(a) |-> IF \E m \in 1..Len(ix) : ix[m] = i
                                      THEN RAdd(a[i], c.a[CHOOSE m \in 1..Len(ix) : ix[m] = i]) ELSE a[i]]), tol)
Gr(p) == Reflections(p, 0, [i \in 1..Len(p.N) |-> RMul(0, 1)], "1e-8")

(* The restitution blend: inelastic answer and elastic answer, weighted. *)
Whole(p, c) == /\ VEq(c.v0, p.v0) /\ VEq(c.v0F, p.v0F) /\ c.N = p.N /\ VEq(c.nrel, p.nrel) /\ QuadHolds(p.Minv, c.N, c.Q, "1e-9")
AllAre(f, x) == \A i \in 1..Len(f) : REq(f[i], x)
Grr(p) ==
  LET e == p.cor[1]
      I == SelectSeq(p.inner, LAMBDA c : c.k = "i")  E == SelectSeq(p.inner, LAMBDA c : c.k = "e") IN
  /\ \A k \in 1..Len(p.inner) : Whole(p, p.inner[k])
  /\ IF REq(e, 0) THEN Len(I) = 1 /\ E = << >> /\ AllAre(I[1].cor, 0) /\ VEq(I[1].a0, p.a0) /\ VEq(p.a, I[1].a)
     ELSE IF REq(e, 1) THEN Len(E) = 1 /\ I = << >> /\ AllAre(E[1].cor, 1) /\ VEq(E[1].a0, p.a0) /\ VEq(p.a, E[1].a)
     ELSE /\ Len(I) = 1 /\ Len(E) = 1 /\ AllAre(I[1].cor, 0) /\ AllAre(E[1].cor, 1)
          /\ RSign(VInf(I[1].a0)) = 0 /\ RSign(VInf(E[1].a0)) = 0
          /\ VClose(p.a, VAdd(VScale(RSub(1, e), I[1].a), VScale(e, E[1].a)), "1e-12")

(* Sweeping: one contact after another, each resolved on its own, until a whole sweep finds none approaching. *)
RECURSIVE Sweep(_, _, _, _)
\* position i in the sweep; s = [v, a, hit, clear, n]
Sweep(p, d, i, s) ==
  IF i > Len(p.N) THEN IF s.hit /\ s.clear /\ s.n < 60 THEN Sweep(p, d, 1, [s EXCEPT !.hit = FALSE, !.n = @ + 1]) ELSE s
  ELSE LET nv == RAdd(RDot(p.N[i], s.v), p.nrel[i])
           al == RDiv(RMul(RNeg(RAdd(1, p.cor[i])), nv), RDot(p.N[i], d[i]))
           sure == RLt("1e-11", RAbs(RAdd(nv, p.vtol)))
       IN Sweep(p, d, i + 1,
            IF RLt(nv, RNeg(p.vtol))
            THEN TLCEval([s EXCEPT !.v = VAdd(s.v, VScale(al, d[i])), !.a = [s.a EXCEPT ![i] = RAdd(@, al)], !.hit = TRUE, !.clear = @ /\ sure])
            ELSE [s EXCEPT !.clear = @ /\ sure])
Gs(p) ==
  LET d == TLCEval([i \in 1..Len(p.N) |-> Mat(p.Minv, p.N[i])])
      s == Sweep(p, d, 1, [v |-> p.v0, a |-> [i \in 1..Len(p.N) |-> RMul(0, 1)], hit |-> FALSE, clear |-> TRUE, n |-> 0])
  IN IF s.clear /\ s.n < 60 THEN VClose(p.a, s.a, "1e-7")
     ELSE \A i \in 1..Len(p.N) : RLe(RNeg(RMul("1.01", RAdd(p.vtol, "1e-9"))), RAdd(p.nrel[i], RDot(p.N[i], After(p.Minv, p.N, p.v0, p.a))))

(* Error measures the solvers stop on *)
Fb(a, b) == RAbs(RSub(RSub(RSqrt(RAdd(RMul(a, a), RMul(b, b))), a), b))
BoundLambda(x, y, c) == IF REq(c, 0) THEN RMul(0, 1) ELSE IF RLe(x, RNeg(c)) THEN RMin(y, 0) ELSE IF RLe(c, x) THEN RMax(y, 0) ELSE y
TangentLambda(x, g, c) ==
  LET r == VNorm(x) IN
  IF RLe(c, r) THEN IF RSign(r) = 0 THEN (IF RSign(c) = 0 THEN RMul(0, 1) ELSE RNeg(VNorm(g)))
                    ELSE LET n == VScale(RDiv(1, r), x) IN RNeg(VNorm(VSub(g, VScale(RDot(g, n), n))))
  ELSE VNorm(g)
Term(k, x, y, c) ==
  CASE k = "min" -> MinMap(x, y)
    [] k = "fb" -> MaxAbs([i \in 1..Len(x) |-> Fb(x[i], y[i])], Len(x))
    [] k = "bound" -> MaxAbs([i \in 1..Len(x) |-> Fb(BoundLambda(x[i], y[i], c[i]), RSub(c[i], RAbs(x[i])))], Len(x))
    [] k = "smooth" -> MaxAbs([i \in 1..Len(c) |-> LET xx == << x[2*i-1], x[2*i] >>  gg == << y[2*i-1], y[2*i] >> IN
                                 Fb(TangentLambda(xx, gg, c[i]), RSub(c[i], VNorm(xx)))], Len(c))
=============================================================================
