------------------------------ MODULE StepTrace ------------------------------
(* Steps of a real simulator; `cur` is the state it is known to be in.        *)
EXTENDS TraceBase, Step
CONSTANT Aspect                                          \* "portals" or "pipeline"
VARIABLE cur
Tol == "1e-9"
None == [n |-> 0]
Init == l = 1 /\ cur = None
Scene == /\ IsEvent("scene")
         /\ cur' = [n |-> Ev.n, lay |-> Ev.lay, ps |-> Ev.portals, exact |-> Ev.exact, q |-> Ev.q, v |-> Ev.v]
         /\ l' = l + 1
Last(s) == s[Len(s)]
\* what the map returned, before the portals
Proposed == IF Ev.flow = 2 THEN Last(Ev.ifmap) ELSE Last(Ev.umap)
AfterWrap == IF Ev.end = << >> THEN [q |-> Ev.q, v |-> Ev.v] ELSE [q |-> Ev.end[1].q, v |-> Ev.end[1].v]
StepPortals == AtTime(cur.lay, cur.ps, RMul(Ev.it, Ev.dtv))
WrapHolds == Wrapped(cur.lay, cur.n, StepPortals, Proposed.q1, Proposed.v1, AfterWrap.q, AfterWrap.v, cur.exact, Tol)
DrawnHolds == cur.lay # "r3" =>
  /\ Len(Ev.at) = Len(cur.ps)
  /\ \A k \in 1..Len(cur.ps) : OffsetSure(StepPortals[k]) \/ cur.exact =>
       LET d == Drawn(StepPortals[k]) IN VClose(Ev.at[k].a, d.a, Tol) /\ VClose(Ev.at[k].b, d.b, Tol)
\* a script call: this state, this iteration, this step size
Call(c, q, v) == c.same /\ c.it = Ev.it /\ c.dt = Ev.dt /\ VEq(c.q, q) /\ VEq(c.v, v)
Asked(c, q) == c.it = Ev.it /\ REq(c.dt, Ev.dtv) /\ VEq(c.q, q)
PipelineHolds ==
  LET scripts == IF Ev.scripted THEN 1 ELSE 0
      qs == IF Ev.scripted THEN Ev.start[1].q2 ELSE cur.q      \* what the map has to start from
      vs == IF Ev.scripted THEN Ev.start[1].v2 ELSE cur.v
      qe == IF Ev.scripted THEN Ev.end[1].q2 ELSE AfterWrap.q
      ve == IF Ev.scripted THEN Ev.end[1].v2 ELSE AfterWrap.v
  IN /\ Len(Ev.start) = scripts /\ Len(Ev.end) = scripts
     /\ REq(RRound64(RDiv(Ev.dt[1], Ev.dt[2])), Ev.dtv)
     /\ Ev.scripted => Call(Ev.start[1], cur.q, cur.v)
     /\ Ev.scripted => Call(Ev.end[1], AfterWrap.q, AfterWrap.v)
     /\ IF Ev.flow = 2
        THEN /\ Len(Ev.ifmap) = 1 /\ Len(Ev.umap) = 0
             /\ LET c == Ev.ifmap[1] IN Asked(c, qs) /\ VEq(c.v, vs) /\ c.args /\ REq(c.cor, Ev.cor) /\ REq(c.mu, Ev.mu)
        ELSE /\ Len(Ev.umap) >= 1 /\ Len(Ev.ifmap) = 0
             /\ \A k \in 1..Len(Ev.umap) : Asked(Ev.umap[k], qs)
             /\ VEq(Ev.umap[1].v, vs)
             /\ Ev.flow = 0 => Len(Ev.umap) = 1
     /\ WrapHolds
     /\ VEq(Ev.q, qe) /\ VEq(Ev.v, ve)
     /\ cur.lay = "r3" => \A i \in 1..cur.n :
          LET R == SubSeq(Ev.q, 3 * cur.n + 9 * (i - 1) + 1, 3 * cur.n + 9 * i)
              d == SubSeq(Ev.I0, 3 * (i - 1) + 1, 3 * i)
              I == SubSeq(Ev.I, 9 * (i - 1) + 1, 9 * i)
              J == SubSeq(Ev.Iinv, 9 * (i - 1) + 1, 9 * i)
              big == RMul(Tol, VInf(d))
              bigj == RDiv(RMul(Tol, 10), RMin(d[1], RMin(d[2], d[3])))
          IN /\ RLe(VInf(VSub(I, Inertia(R, d))), big)
             /\ RLe(VInf(VSub(J, Inertia(R, << RDiv(1, d[1]), RDiv(1, d[2]), RDiv(1, d[3]) >>))), bigj)
Step1 == /\ IsEvent("step")
         /\ Holds(IF Aspect = "portals" THEN WrapHolds /\ DrawnHolds ELSE PipelineHolds)
         /\ cur' = [cur EXCEPT !.q = Ev.q, !.v = Ev.v]
         /\ l' = l + 1

(* one portal, one point: every function of it *)
TelePortal == Ev.portals[Ev.k + 1]
HalfTouch(p, x, r) == RLe(SideDist([a |-> p, b |-> p], "A", x), r)
Gap2(lay, pl, x, r) ==                                    \* signed room between the body and the plane
  RSub(R3!PlaneDist(pl, x), RMul(r, IF lay = "b2" THEN 1 ELSE RSumSeq([c \in 1..Len(x) |-> RAbs(pl.n[c])])))
TeleHolds ==
  LET p == TelePortal  x == Ev.x  lay == Ev.lay
      da == SideDist(p, "A", x)  db == SideDist(p, "B", x)
      sure == Ev.exact \/ (RLt("1e-9", RAbs(da)) /\ RLt("1e-9", RAbs(db)))
      away(s) == Ev.exact \/ lay = "r3" \/ ~NearBounds(p, s, x)
      ga == Gap2(lay, p.a, x, Ev.r)  gb == Gap2(lay, p.b, x, Ev.r)
      tsure == Ev.exact \/ (RLt("1e-9", RAbs(ga)) /\ RLt("1e-9", RAbs(gb)))
      in == RLt(da, 0) \/ RLt(db, 0)
      s == IF RLt(da, 0) THEN "A" ELSE "B"
      touch == RLe(ga, 0) \/ RLe(gb, 0)
      ts == IF RLe(ga, 0) THEN "A" ELSE "B"
  IN /\ away("A") => VClose(Ev.ta, CarryPoint(lay, p, "A", x), Tol)
     /\ away("B") => VClose(Ev.tb, CarryPoint(lay, p, "B", x), Tol)
     /\ sure => /\ Ev.in = in
                /\ in => /\ VEq(Ev.y, IF s = "A" THEN Ev.ta ELSE Ev.tb)
                         /\ lay # "r3" => VClose(Ev.kin, Kick(p, s), Tol)
     /\ tsure => /\ Ev.touch = touch
                 /\ touch => /\ Ev.side = (IF ts = "A" THEN 0 ELSE 1)
                             /\ VEq(Ev.z, IF ts = "A" THEN Ev.ta ELSE Ev.tb)
                             /\ lay # "r3" => VClose(Ev.kz, Kick(p, ts), Tol)
     /\ lay # "r3" => /\ Ev.le = (RSign(p.v) # 0)
                      /\ (OffsetSure(p) \/ Ev.exact) => VClose(Ev.ax, Drawn(p).a, Tol) /\ VClose(Ev.bx, Drawn(p).b, Tol)
Tele == /\ IsEvent("tele") /\ Holds(Aspect = "portals" => TeleHolds)
        /\ l' = l + 1 /\ UNCHANGED cur

(* the spatial simulator stops when a body leaves the region it was confined to *)
Reach(b, c) == IF b.kind = "sphere" THEN b.r[1]
               ELSE RDot([k \in 1..3 |-> RAbs(b.R[3 * (c - 1) + k])], b.r)
Out(b, c) == RMax(RSub(Ev.lo[c], RSub(b.x[c], Reach(b, c))), RSub(RAdd(b.x[c], Reach(b, c)), Ev.hi[c]))
Leave == /\ IsEvent("leave")
         /\ Holds(LET out == {<< i, c >> \in (1..Len(Ev.bs)) \X (1..3) : RLt("1e-9", Out(Ev.bs[i], c))}
                      near == \E i \in 1..Len(Ev.bs), c \in 1..3 : RLt(RAbs(Out(Ev.bs[i], c)), "1e-8")
                  IN ~near => IF Ev.on /\ out # {} THEN Ev.code # 0 ELSE Ev.code = 0)
         /\ l' = l + 1 /\ UNCHANGED cur
Next == Scene \/ Step1 \/ Tele \/ Leave
=============================================================================
