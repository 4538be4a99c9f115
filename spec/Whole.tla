------------------------------- MODULE Whole -------------------------------
(***************************************************************************)
(* Conservation over a whole time step, whatever contacts were found and   *)
(* whichever map and solver ran.  w is the world (masses, inertias, what   *)
(* is fixed, the uniform force field, the coefficients), (q, v) the state  *)
(* before the step, (p, u) the state after it, cs the contacts solved.     *)
(*                                                                         *)
(* The energy law: a step kicks the velocity by h g, adds impulses r with  *)
(* r.u <= 0 (inelastic contacts push only where nothing separates, friction*)
(* opposes sliding), and moves by h u; then                                *)
(*   E1 - E0 = r.u - |u - v|^2 / 2 <= 0   (norm of the masses).            *)
(* With one restitution e > 0 and no field, w = (u + e v) / (1 + e) is the *)
(* inelastic answer, and |u|^2 = (1-e^2)|w|^2 + e^2|v|^2 <= |v|^2.         *)
(***************************************************************************)
EXTENDS Report
Loose(w) == {i \in 1..w.n : ~ w.fixed[i]}
\* the world as Report sees it, at state (q, v)
At(w, q, v) == [lay |-> w.lay, n |-> w.n, m |-> w.m, I |-> w.I, q |-> q, v |-> v]
SumOver(w, f(_)) == RSumSeq([i \in 1..w.n |-> IF w.fixed[i] THEN RMul(0, 1) ELSE f(i)])
NoField(w) == ~ w.pushy /\ \A a \in 1..Len(w.g) : RSign(w.g[a]) = 0
\* no contact with something that is not a loose body
Inner(w, cs) == \A k \in 1..Len(cs) : cs[k].i > 0 /\ cs[k].j > 0 /\ ~ w.fixed[cs[k].i] /\ ~ w.fixed[cs[k].j]
Scale(w, v) == RAdd(1, RMul(RSumSeq(w.m), VInf(v)))
Same(a, b, big, tol) == RLe(RAbs(RSub(a, b)), RMul(tol, big))

Translation(w, cs, v, u, tol) ==
  ~ w.shear /\ Inner(w, cs) =>
    \A a \in 1..Dim(w) :
      Same(SumOver(w, LAMBDA i : RMul(w.m[i], Vel(w, u, i)[a])),
           SumOver(w, LAMBDA i : RMul(w.m[i], RAdd(Vel(w, v, i)[a], RMul(w.dt, w.g[a])))), RAdd(Scale(w, v), Scale(w, u)), tol)

Turn(w, q, v) ==
  IF w.lay = "r3" THEN [a \in 1..3 |-> SumOver(w, LAMBDA i : RAdd(RMul(w.m[i], Cross3(Pos(w, q, i), Vel(w, v, i))[a]), Own(At(w, q, v), v, i)[a]))]
  ELSE << SumOver(w, LAMBDA i : RAdd(RMul(w.m[i], Cross2(Pos(w, q, i), Vel(w, v, i))), Own(At(w, q, v), v, i))) >>
Turning(w, cs) ==
  /\ w.portals = 0 /\ NoField(w) /\ w.map \in {"lcp", "gr", "grr", "gs", "geometric", "free"} /\ (w.lay = "r3" => w.round)
  /\ Inner(w, cs) /\ \A k \in 1..Len(cs) : IF RSign(w.mu) = 0 THEN cs[k].ca ELSE cs[k].cf
Rotation(w, cs, q, v, p, u, tol) ==
  Turning(w, cs) => LET A == TLCEval(Turn(w, q, v))  B == TLCEval(Turn(w, p, u)) IN
    \A a \in 1..Len(A) : Same(A[a], B[a], RMul(RAdd(1, VInf(q)), RAdd(Scale(w, v), Scale(w, u))), tol)

Energy(w, q, v) ==
  LET e == At(w, q, v) IN
  RSub(RDiv(SumOver(w, LAMBDA i : RAdd(RMul(w.m[i], VNorm2(Vel(w, v, i))), SpinEnergy(e, i))), 2), SumOver(w, LAMBDA i : RMul(w.m[i], RDot(w.g, Pos(w, q, i)))))
Impacts == {"lcp", "gr", "grr", "gs"}
Explicit(w) == w.umap = "exponential_euler"                 \* moves with the velocity before the kick
Solved(w, s) == IF w.map \in {"gr", "grr", "gs"} THEN TRUE ELSE IF w.map = "lcp" THEN RLe(s.res, "1e-8") ELSE s.ok
Losing(w, s) ==
  /\ ~ w.pushy /\ w.still /\ ~ w.shear /\ (w.portals = 0 \/ NoField(w)) /\ (w.lay = "r3" => w.round)
  /\ w.map # "stabilized" /\ ~ w.stab /\ Solved(w, s) /\ (Explicit(w) => NoField(w))
  \* impact maps collide before they move, the others push and collide together
  /\ w.map \in Impacts \cup {"free"} \/ RSign(w.cor) = 0 \/ (NoField(w) /\ RSign(w.mu) = 0)
Dissipation(w, s, q, v, p, u, tol) ==
  Losing(w, s) => LET A == TLCEval(Energy(w, q, v))  B == TLCEval(Energy(w, p, u))  k == RMul(RSumSeq(w.m), RAdd(VNorm2(v), VNorm2(u))) IN
    RLe(B, RAdd(A, RMul(tol, RAdd(1, RAdd(k, RMul(RAdd(1, RAbs(A)), "1e-3"))))))

\* a body that takes part in no contact moves freely; a fixed one at rest not at all
Body(w, q, i) == IF w.lay = "r3" THEN SubSeq(q, 3 * i - 2, 3 * i) \o SubSeq(q, 3 * w.n + 9 * i - 8, 3 * w.n + 9 * i) ELSE SubSeq(q, Stride(w) * (i - 1) + 1, Stride(w) * i)
Rate(w, v, i) == IF w.lay = "r3" THEN SubSeq(v, 3 * i - 2, 3 * i) \o SubSeq(v, 3 * w.n + 3 * i - 2, 3 * w.n + 3 * i) ELSE SubSeq(v, Stride(w) * (i - 1) + 1, Stride(w) * i)
Free(w, cs, i) == ~ w.fixed[i] /\ \A k \in 1..Len(cs) : cs[k].i # i /\ cs[k].j # i
Drift(w, cs, q, v, p, u, tol) ==
  /\ \A i \in 1..w.n : w.fixed[i] => Rate(w, u, i) = Rate(w, v, i) /\ (w.portals = 0 /\ VInf(Rate(w, v, i)) = RMul(0, 1) => VClose(Body(w, p, i), Body(w, q, i), "1e-14"))
  /\ ~ w.pushy /\ ~ w.shear => \A i \in 1..w.n : Free(w, cs, i) =>
       LET v0 == Vel(w, v, i)  v1 == Vel(w, u, i)  x0 == Pos(w, q, i)  x1 == Pos(w, p, i) IN
       /\ VClose(v1, VAdd(v0, VScale(w.dt, w.g)), tol)
       /\ w.lay = "r2" => u[3 * i] = v[3 * i]
       /\ w.portals = 0 => \/ VClose(x1, VAdd(x0, VScale(w.dt, v1)), tol)
                           \/ VClose(x1, VAdd(x0, VScale(RDiv(w.dt, 2), VAdd(v0, v1))), tol)
                           \/ Explicit(w) /\ VClose(x1, VAdd(x0, VScale(w.dt, v0)), tol)
=============================================================================
