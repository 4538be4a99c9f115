-------------------------------- MODULE Maps --------------------------------
(***************************************************************************)
(* The maps that carry a system through one step with contacts.  A map     *)
(* remembers the friction force of its last solve; the system remembers,   *)
(* for each contact of the last step, its impulses (the warm start cache). *)
(* What the map asks of its surroundings (free motion, contact detection,  *)
(* the solver, scripted coefficients) and what they answer is in the event;*)
(* the specification says which questions the map has to ask and how its   *)
(* result follows from the answers.                                        *)
(***************************************************************************)
EXTENDS Impact
VARIABLES map, cache, f
Zero(k) == [i \in 1..k |-> RMul(0, 1)]
None == [k \in {} |-> << >>]
Cached(c, k, size) == IF k \in DOMAIN c THEN c[k] ELSE Zero(size)
Near(x, y) == Len(x) = Len(y) /\ VClose(x, y, "1e-9")
Same(x, y) == Len(x) = Len(y) /\ VEq(x, y)
\* impulses a map of this mode remembers per contact
Size(m) == IF m.mode = 0 THEN 0 ELSE IF m.mode = 1 THEN 1 ELSE IF m.dim = 3 THEN 6 ELSE 2
T(m) == m.dim - 1
\* the force x turned as the normal turned, from n0 to n1, along the shortest way
Turned(n0, n1, x) ==
  LET c == RDot(n0, n1)  w == TLCEval(Cross3(n0, n1)) IN
  VAdd(VAdd(VScale(c, x), Cross3(w, x)), VScale(RDiv(RDot(w, x), RAdd(1, c)), w))
Opposed(n0, n1) == RLt(RDot(n0, n1), "-0.999")
\* the solver's first guess for one contact: normal impulse followed by tangential ones
Guess(m, c, k) ==
  LET r == Cached(c, k.key, Size(m)) IN
  IF m.mode = 0 THEN Zero(m.dim)
  ELSE IF m.mode = 1 THEN << r[1] >> \o Zero(T(m))
  ELSE IF m.dim = 2 THEN r
  ELSE IF RSign(VInf(r)) = 0 THEN Zero(3)
  ELSE LET g == TLCEval(Turned(SubSeq(r, 1, 3), k.b[1], SubSeq(r, 4, 6))) IN [i \in 1..3 |-> RDot(g, k.b[i])]
Guessable(m, c, k) == (m.mode = 2 /\ m.dim = 3) => LET r == Cached(c, k.key, 6) IN ~Opposed(SubSeq(r, 1, 3), k.b[1])
\* what is remembered of an answer
Kept(m, k, a, b) ==
  IF m.mode = 1 THEN << a >>
  ELSE IF m.dim = 2 THEN << a >> \o b
  ELSE k.b[1] \o VAdd(VScale(a, k.b[1]), VAdd(VScale(b[1], k.b[2]), VScale(b[2], k.b[3])))
KeysOf(s) == {s[i] : i \in 1..Len(s)}
Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
\* coefficients: the default, unless the script says otherwise
Coefs(on, calls, keys, default) ==
  IF on /\ Len(calls) >= 1 THEN calls[Len(calls)].out ELSE [i \in 1..Len(keys) |-> default]
Asked(on, calls, keys, default) ==
  IF on THEN Len(calls) = 1 /\ calls[1].keys = keys /\ Len(calls[1].in) = Len(keys) /\ AllAre(calls[1].in, default) ELSE calls = << >>
Remembered(ev) == IF Len(f) = Len(ev.v) THEN f ELSE Zero(Len(ev.v))
\* the solve that a friction map asks for, at velocity v
Solve(ev, s, keys, v) ==
  /\ s.it = ev.it /\ REq(s.dt, ev.dt) /\ s.args /\ s.max = map.max /\ REq(s.tol, map.tol)
  /\ Same(s.q, ev.q) /\ Near(s.v, v)
  /\ [i \in 1..Len(s.cs) |-> s.cs[i].key] = keys /\ Len(s.b) = Len(keys)
  /\ \A i \in 1..Len(keys) : \A k \in 1..map.dim : VClose(s.b[i][k], s.cs[i].b[k], "1e-12")
  /\ Same(s.cor, Coefs(ev.on, ev.cbc, keys, ev.cor)) /\ Same(s.mu, Coefs(ev.on, ev.cbm, keys, ev.mu))
  /\ Same(s.f0, Remembered(ev))
  /\ Len(s.a0) = Len(keys) /\ Len(s.b0) = T(map) * Len(keys)
  /\ \A i \in 1..Len(keys) : Guessable(map, cache, s.cs[i]) =>
       LET g == Guess(map, cache, s.cs[i]) IN Near(<< s.a0[i] >> \o SubSeq(s.b0, T(map) * (i - 1) + 1, T(map) * i), g)
Free(ev, u, v) == Same(u.q, ev.q) /\ Near(u.v, v) /\ u.it = ev.it /\ REq(u.dt, ev.dt) /\ ev.uf
Detected(ev, a, q1, v) == Same(a.q, ev.q) /\ Same(a.q1, q1) /\ Near(a.v, v)
Result(ev, q1, v1) == Same(ev.q1, q1) /\ Near(ev.v1, v1)
\* straight ahead from q at v gives q1
Ahead(ev, v, q1) == \E i \in 1..Len(ev.lin) : Same(ev.lin[i].q, ev.q) /\ Near(ev.lin[i].v, v) /\ REq(ev.lin[i].dt, ev.dt) /\ Same(ev.lin[i].q1, q1)
Keys(ev) == ev.active[1].keys

ImpactFlow(ev) ==
  LET ks == Keys(ev) IN
  /\ Len(ev.umap) >= 1 /\ Free(ev, ev.umap[1], ev.v) /\ Detected(ev, ev.active[1], ev.umap[1].q1, ev.v)
  /\ IF ks = << >> THEN ev.ops = << >> /\ Result(ev, ev.umap[1].q1, ev.umap[1].v1)
     ELSE /\ Len(ev.ops) = 1 /\ Len(ev.umap) = 2 /\ Asked(ev.on, ev.cbc, ks, ev.cor)
          /\ LET o == ev.ops[1]  N == [i \in 1..Len(o.cs) |-> o.cs[i].n] IN
             /\ o.args /\ Same(o.q, ev.q) /\ Same(o.v, ev.v) /\ Same(o.vF, ev.v)
             /\ [i \in 1..Len(o.cs) |-> o.cs[i].key] = ks
             /\ Len(o.N) = Len(ks) /\ \A i \in 1..Len(ks) : VClose(o.N[i], N[i], "1e-12")
             /\ QuadHolds(ev.Minv, o.N, o.Q, "1e-9")
             /\ Near(o.nx, [i \in 1..Len(ks) |-> o.cs[i].kn])
             /\ Same(o.cor, Coefs(ev.on, ev.cbc, ks, ev.cor))
             /\ Same(o.a0, [i \in 1..Len(ks) |-> IF map.mode = 0 THEN RMul(0, 1) ELSE Cached(cache, ks[i], 1)[1]])
             /\ Free(ev, ev.umap[2], After(ev.Minv, N, ev.v, o.a))
          /\ Result(ev, ev.umap[2].q1, ev.umap[2].v1)
GeometricFlow(ev) ==
  LET ks == Keys(ev) IN
  /\ Len(ev.umap) >= 1 /\ Free(ev, ev.umap[1], ev.v) /\ Detected(ev, ev.active[1], ev.umap[1].q1, ev.v)
  /\ IF ks = << >> THEN ev.solves = << >> /\ Result(ev, ev.umap[1].q1, ev.umap[1].v1)
     ELSE /\ Len(ev.solves) = 1 /\ Len(ev.umap) = 2 /\ Asked(ev.on, ev.cbc, ks, ev.cor) /\ Asked(ev.on, ev.cbm, ks, ev.mu)
          /\ LET s == ev.solves[1] IN Solve(ev, s, ks, ev.v) /\ s.nx = << >> /\ s.dx = << >> /\ Free(ev, ev.umap[2], s.vo)
          /\ Result(ev, ev.umap[2].q1, ev.umap[2].v1)
StabilizedFlow(ev) ==
  LET ks == Keys(ev)  u == ev.umap[1] IN
  /\ Len(ev.umap) = 1 /\ Free(ev, u, ev.v) /\ Detected(ev, ev.active[1], u.q1, u.v1)
  /\ IF ks = << >> THEN ev.solves = << >> /\ Result(ev, u.q1, u.v1)
     ELSE /\ Len(ev.solves) = 1 /\ Asked(ev.on, ev.cbc, ks, ev.cor) /\ Asked(ev.on, ev.cbm, ks, ev.mu)
          /\ LET s == ev.solves[1] IN Solve(ev, s, ks, u.v1) /\ s.nx = << >> /\ s.dx = << >> /\ Near(ev.v1, s.vo)
          /\ Ahead(ev, ev.v1, ev.q1)
SymplecticFlow(ev) ==
  LET ks == Keys(ev)
      kick == TLCEval(VScale(ev.dt, Mat(ev.Minv, ev.Fz)))
      v == TLCEval(VAdd(ev.v, kick))
      \* contacts that already overlap by at least the threshold are to separate within the step
      Push(c) == IF map.stab /\ RLt(c.gap, 0) /\ RLe(map.thr, RNeg(c.gap)) THEN RDiv(c.gap, ev.dt) ELSE RMul(0, 1)
      Sure(c) == RLt("1e-12", RAbs(RSub(RAbs(c.gap), map.thr))) \/ REq(map.thr, 0) IN
  /\ Len(ev.forces) >= 1 /\ \A i \in 1..Len(ev.forces) : Same(ev.forces[i].q, ev.q) /\ Same(ev.forces[i].v, ev.v)
  /\ Detected(ev, ev.active[1], ev.active[1].q1, ev.v) /\ Ahead(ev, v, ev.active[1].q1)
  /\ IF ks = << >> THEN ev.solves = << >> /\ Near(ev.v1, v)
     ELSE /\ Len(ev.solves) = 1 /\ Asked(ev.on, ev.cbc, ks, ev.cor) /\ Asked(ev.on, ev.cbm, ks, ev.mu)
          /\ LET s == ev.solves[1] IN
             /\ Solve(ev, s, ks, ev.v)
             /\ Len(s.nx) = Len(ks) /\ Len(s.dx) = T(map) * Len(ks)
             /\ \A i \in 1..Len(ks) : Sure(s.cs[i]) => RLe(RAbs(RSub(s.nx[i], RAdd(RDot(s.cs[i].n, kick), Push(s.cs[i])))), RMul("1e-8", RMax(1, RAbs(s.nx[i]))))
             /\ \A i \in 1..Len(ks) : \A k \in 1..T(map) : s.cs[i].d # << >> => RLe(RAbs(RSub(s.dx[T(map)*(i-1)+k], RDot(s.cs[i].d[k], kick))), "1e-8")
             /\ Near(ev.v1, VAdd(s.vo, kick))
  /\ Ahead(ev, ev.v1, ev.q1)
\* what the cache holds once the step is done
NextCache(ev) ==
  LET ks == Keys(ev) IN
  IF map.mode = 0 \/ ks = << >> THEN None
  ELSE IF map.kind = "impact" THEN [k \in KeysOf(ks) |-> << ev.ops[1].a[Pos(ks, k)] >>]
  ELSE LET s == ev.solves[1] IN
       TLCEval([k \in KeysOf(ks) |-> LET i == Pos(ks, k) IN Kept(map, s.cs[i], s.a[i], SubSeq(s.bo, T(map) * (i - 1) + 1, T(map) * i))])
Flow(ev) ==
  /\ Len(ev.active) = 1
  /\ CASE map.kind = "impact" -> ImpactFlow(ev) [] map.kind = "geometric" -> GeometricFlow(ev)
       [] map.kind = "stabilized" -> StabilizedFlow(ev) [] map.kind = "symplectic" -> SymplecticFlow(ev)
  /\ LET c == NextCache(ev) IN
     /\ ev.empty = (DOMAIN c = {})
     /\ \A i \in 1..Len(ev.after) : Near(ev.after[i].r, Cached(c, ev.after[i].key, Size(map)))
NextForce(ev) == IF map.kind = "impact" THEN f ELSE IF ev.solves = << >> THEN Remembered(ev) ELSE ev.solves[1].f
=============================================================================
