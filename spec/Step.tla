-------------------------------- MODULE Step --------------------------------
(***************************************************************************)
(* One time step of a simulator, seen from outside.  The state is (q, v)   *)
(* of n bodies; lay is its layout: "b2" (x), "r2" (x, angle), "r3" (all    *)
(* positions, then all rotations).  A step is                              *)
(*   start-of-step script  ->  portals move to the time the step ends at   *)
(*   ->  the map proposes (q1, v1)  ->  every body beyond a portal plane   *)
(*   is carried to the partner plane  ->  end-of-step script.              *)
(***************************************************************************)
EXTENDS Portal2D
R3 == INSTANCE Rigid3D
Stride(lay) == IF lay = "b2" THEN 2 ELSE 3
Pos(lay, q, i) == SubSeq(q, Stride(lay) * (i - 1) + 1, Stride(lay) * (i - 1) + Dim(lay))
PosIdx(lay, n) == {Stride(lay) * (i - 1) + c : i \in 1..n, c \in 1..Dim(lay)}
Moved(p, t) == [p EXCEPT !.t = t]                         \* a planar portal at time t
SideDist(p, s, x) == R3!PlaneDist(IF s = "A" THEN p.a ELSE p.b, x)
\* where the point comes out on the partner plane before wrapping of the shear: undecided this close to the bounds
NearBounds(p, s, x) ==
  LET f == IF s = "A" THEN p.a ELSE p.b
      tt == RAdd(RMul(p.v, p.t), RDot(Tang(f), VSub(f.x, x)))
      w == Wrap(RAdd(tt, p.bounds), p.bounds)
      o == Wrap(RAdd(RMul(p.v, p.t), p.bounds), p.bounds)
  IN RSign(p.bounds) # 0 /\ (RLe(RAbs(w), "1e-7") \/ RLe(RAbs(o), "1e-7"))
CarryPoint(lay, p, s, x) == IF lay = "r3" THEN R3!Through(p, IF s = "A" THEN "a" ELSE "b", x) ELSE Through(p, s, x)
\* [x, dv, ok, hit] of a body after portals 1..k
RECURSIVE Carry(_, _, _, _, _)
Carry(lay, ps, k, x, exact) ==
  IF k = 0 THEN [x |-> x, dv |-> [c \in 1..Dim(lay) |-> RMul(0, 1)], ok |-> TRUE, hit |-> FALSE]
  ELSE LET c == Carry(lay, ps, k - 1, x, exact)
           p == ps[k]
           da == SideDist(p, "A", c.x)  db == SideDist(p, "B", c.x)
           sure == (exact /\ (lay # "r3" \/ ~c.hit)) \/ (RLt("1e-9", RAbs(da)) /\ RLt("1e-9", RAbs(db)))
           s == IF RLt(da, 0) THEN "A" ELSE "B"
       IN IF ~(RLt(da, 0) \/ RLt(db, 0)) THEN [c EXCEPT !.ok = c.ok /\ sure]
          ELSE [x |-> CarryPoint(lay, p, s, c.x),
                dv |-> IF lay = "r3" THEN c.dv ELSE VAdd(c.dv, Kick(p, s)),
                ok |-> /\ c.ok /\ sure /\ ~(RLt(da, 0) /\ RLt(db, 0))
                       /\ (exact \/ lay = "r3" \/ ~NearBounds(p, s, c.x)),
                hit |-> TRUE]
\* (q, v) is (q1, v1) with every body carried through the portals, and nothing else changed
Wrapped(lay, n, ps, q1, v1, q, v, exact, tol) ==
  LET P == PosIdx(lay, n) IN
  /\ Len(q) = Len(q1) /\ Len(v) = Len(v1)
  /\ \A k \in (1..Len(q)) \ P : REq(q[k], q1[k])
  /\ \A k \in (1..Len(v)) \ P : REq(v[k], v1[k])
  /\ \A i \in 1..n :
       LET c == Carry(lay, ps, Len(ps), Pos(lay, q1, i), exact) IN
       c.ok => IF c.hit THEN /\ VClose(Pos(lay, q, i), c.x, tol)
                             /\ VClose(Pos(lay, v, i), VAdd(Pos(lay, v1, i), c.dv), tol)
               ELSE VEq(Pos(lay, q, i), Pos(lay, q1, i)) /\ VEq(Pos(lay, v, i), Pos(lay, v1, i))
\* where a moving portal is drawn
Drawn(p) == [a |-> VAdd(p.a.x, VScale(Offset(p), Tang(p.a))), b |-> VAdd(p.b.x, VScale(Offset(p), Tang(p.b)))]
OffsetSure(p) == RSign(p.bounds) = 0 \/ RLt("1e-9", RAbs(Wrap(RAdd(RMul(p.v, p.t), p.bounds), p.bounds)))
AtTime(lay, ps, t) == [k \in 1..Len(ps) |-> IF lay = "r3" THEN ps[k] ELSE Moved(ps[k], t)]
\* world inertia of body i: R diag(I0) R^T
Inertia(R, d) == [k \in 1..9 |-> LET a == ((k - 1) \div 3) + 1  b == ((k - 1) % 3) + 1 IN
                    RDot([c \in 1..3 |-> RMul(R[3*(a-1)+c], d[c])], [c \in 1..3 |-> R[3*(b-1)+c]])]
=============================================================================
