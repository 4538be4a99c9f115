------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* What a simulation reports about itself, from its bodies: energies,      *)
(* momenta, the box around everything, and the forces at any state.        *)
(***************************************************************************)
EXTENDS Shape
Dim(ev) == IF ev.lay = "r3" THEN 3 ELSE 2
Stride(ev) == CASE ev.lay = "b2" -> 2 [] ev.lay = "r2" -> 3 [] ev.lay = "r3" -> 3
Pos(ev, q, i) == SubSeq(q, Stride(ev) * (i - 1) + 1, Stride(ev) * (i - 1) + Dim(ev))
Vel(ev, v, i) == Pos(ev, v, i)
Bodies(ev) == 1..ev.n
Total(ev, f(_)) == RSumSeq([i \in Bodies(ev) |-> f(i)])
Rot(ev, i) == IF ev.lay = "r3" THEN SubSeq(ev.q, 3 * ev.n + 9 * (i - 1) + 1, 3 * ev.n + 9 * i) ELSE IF ev.lay = "r2" THEN ev.q[3 * i] ELSE 0
Spin(ev, v, i) == IF ev.lay = "r3" THEN SubSeq(v, 3 * ev.n + 3 * (i - 1) + 1, 3 * ev.n + 3 * i) ELSE IF ev.lay = "r2" THEN v[3 * i] ELSE 0
Back(R, x) == << RDot(<< R[1], R[4], R[7] >>, x), RDot(<< R[2], R[5], R[8] >>, x), RDot(<< R[3], R[6], R[9] >>, x) >>
\* spin momentum of body i about its own centre, in space
Own(ev, v, i) ==
  IF ev.lay = "b2" THEN 0 ELSE IF ev.lay = "r2" THEN RMul(ev.I[i], Spin(ev, v, i))
  ELSE LET b == TLCEval(Back(Rot(ev, i), Spin(ev, v, i))) IN Ap(Rot(ev, i), << RMul(ev.I[i][1], b[1]), RMul(ev.I[i][2], b[2]), RMul(ev.I[i][3], b[3]) >>)
SpinEnergy(ev, i) == IF ev.lay = "b2" THEN 0 ELSE IF ev.lay = "r2" THEN RMul(Own(ev, ev.v, i), Spin(ev, ev.v, i)) ELSE RDot(Own(ev, ev.v, i), Spin(ev, ev.v, i))
Kinetic(ev) == RDiv(Total(ev, LAMBDA i : RAdd(RMul(ev.m[i], VNorm2(Vel(ev, ev.v, i))), SpinEnergy(ev, i))), 2)
Momentum(ev, v) == [a \in 1..Dim(ev) |-> Total(ev, LAMBDA i : RMul(ev.m[i], Vel(ev, v, i)[a]))]
Angular(ev, v) ==
  IF ev.lay = "r3" THEN [a \in 1..3 |-> Total(ev, LAMBDA i : RAdd(RMul(ev.m[i], Cross3(Pos(ev, ev.q, i), Vel(ev, v, i))[a]), Own(ev, v, i)[a]))]
  ELSE << Total(ev, LAMBDA i : RAdd(RMul(ev.m[i], Cross2(Pos(ev, ev.q, i), Vel(ev, v, i))), Own(ev, v, i))) >>
(* ------------------------------- forces --------------------------------- *)
\* x to the power h/2
PowHalf(x, h) == LET whole == h \div 2  W[k \in 0..4] == IF k = 0 THEN RMul(1, 1) ELSE RMul(W[k - 1], x) IN RMul(W[whole], IF h % 2 = 1 THEN RSqrt(x) ELSE 1)
\* how deep balls i and j overlap; nothing when apart
Gap(ev, q, i, j) == RSub(RAdd(ev.shapes[i].r, ev.shapes[j].r), VNorm(VSub(Pos(ev, q, j), Pos(ev, q, i))))
Zero == RMul(0, 1)
Overlap(ev, q, i, j) == i # j /\ RSign(Gap(ev, q, i, j)) = 1
Potential(ev, q, f) ==
  IF f.kind = "gravity" THEN RNeg(Total(ev, LAMBDA i : RMul(ev.m[i], RDot(f.g, Pos(ev, q, i)))))
  ELSE Total(ev, LAMBDA i : Total(ev, LAMBDA j : IF j > i /\ Overlap(ev, q, i, j) THEN RDiv(RMul(f.c, PowHalf(Gap(ev, q, i, j), f.p2)), 2) ELSE Zero))
\* component a of the push on body i
Push(ev, q, f, i, a) ==
  IF f.kind = "gravity" THEN RMul(ev.m[i], f.g[a])
  ELSE Total(ev, LAMBDA j : IF ~ Overlap(ev, q, i, j) THEN Zero
                            ELSE LET d == VSub(Pos(ev, q, i), Pos(ev, q, j)) IN
                                 RMul(RDiv(RMul(f.c, RMul(RDiv(f.p2, 2), PowHalf(Gap(ev, q, i, j), f.p2 - 2))), 2), RDiv(d[a], VNorm(d))))
Forces(ev, q) == [k \in 1..Len(ev.v) |->
  LET i == ((k - 1) \div Stride(ev)) + 1  a == ((k - 1) % Stride(ev)) + 1 IN
  IF i > ev.n \/ a > Dim(ev) THEN 0 ELSE RSumSeq([h \in 1..Len(ev.forces) |-> Push(ev, q, ev.forces[h], i, a)])]
(* ------------------------------- the box -------------------------------- *)
Hull(ev) ==
  LET B == TLCEval([i \in 1..(ev.n + Len(ev.drums)) |-> IF i <= ev.n THEN Bounds(ev.shapes[i], Pos(ev, ev.q, i), Rot(ev, i))
                                                  ELSE Bounds([kind |-> "circle", r |-> ev.drums[i - ev.n].r], ev.drums[i - ev.n].x, 0)]) IN
  [lo |-> [a \in 1..Dim(ev) |-> Least([i \in 1..Len(B) |-> B[i].lo[a]])], hi |-> [a \in 1..Dim(ev) |-> Most([i \in 1..Len(B) |-> B[i].hi[a]])]]
=============================================================================
