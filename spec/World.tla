-------------------------------- MODULE World --------------------------------
(***************************************************************************)
(* A simulated world and the edits that scripts, scene loading and the     *)
(* user interface perform on it.  A world is a record whose components are *)
(* the recorded view of a simulation: configuration q, velocity v, mass    *)
(* matrices as lists of entries <<row, column, value>> in column order,    *)
(* fixed flags, geometries and which body uses which, static objects.      *)
(***************************************************************************)
EXTENDS Num, Sequences, FiniteSets, TLC
Tol == "1e-11"
VD(w) == CASE w.lay = "b2" -> 2 [] w.lay = "r2" -> 3 [] w.lay = "r3" -> 6
QD(w) == CASE w.lay = "b2" -> 2 [] w.lay = "r2" -> 3 [] w.lay = "r3" -> 12
Diag(A) == [k \in 1..Len(A.e) |-> A.e[k][3]]
IsDiag(A, n) == A.rows = n /\ A.cols = n /\ Len(A.e) = n /\ \A k \in 1..n : A.e[k][1] = k /\ A.e[k][2] = k
Recip(A, B) == \A k \in 1..Len(A.e) : RSign(A.e[k][3]) = 1 /\ Close(RMul(A.e[k][3], B.e[k][3]), 1, Tol)
\* A is given by the masses on the linear part and by symmetric 3x3 blocks on the angular part
Block(n, r, c) == IF r <= 3 * n \/ c <= 3 * n THEN r = c ELSE (r - 1) \div 3 = (c - 1) \div 3
At(A, r, c) == LET S == { k \in 1..Len(A.e) : A.e[k][1] = r /\ A.e[k][2] = c } IN IF S = {} THEN "0x0p+0" ELSE A.e[CHOOSE k \in S : TRUE][3]
Row3(w, i, r) == SubSeq(w.q, 3 * w.n + 9 * (i - 1) + 3 * (r - 1) + 1, 3 * w.n + 9 * (i - 1) + 3 * r)
Spatial(w, A0, A) ==
  LET n == w.n  d == Diag(A0) IN
  /\ A.rows = 6 * n /\ A.cols = 6 * n
  /\ \A k \in 1..Len(A.e) : Block(n, A.e[k][1], A.e[k][2])
  /\ \A i \in 1..(3 * n) : At(A, i, i) = d[i]
  /\ \A i \in 1..n : \A r, c \in 1..3 :
       LET I == SubSeq(d, 3 * n + 3 * i - 2, 3 * n + 3 * i)  a == Row3(w, i, r)  b == Row3(w, i, c) IN
       RLe(RAbs(RSub(At(A, 3 * n + 3 * (i - 1) + r, 3 * n + 3 * (i - 1) + c), RDot(<< RMul(a[1], I[1]), RMul(a[2], I[2]), RMul(a[3], I[3]) >>, b))), RMul(Tol, VInf(I)))
\* every component speaks of the same bodies, and the mass matrices are those of the bodies
Sound(w) ==
  /\ Len(w.q) = QD(w) * w.n /\ Len(w.v) = VD(w) * w.n /\ Len(w.fixed) = w.n
  /\ (w.lay = "b2" => Len(w.r) = w.n)
  /\ (w.lay # "b2" => Len(w.gi) = w.n /\ \A i \in 1..w.n : w.gi[i] \in 1..Len(w.geos))
  /\ IF w.lay = "r3"
     THEN w.n > 0 => /\ IsDiag(w.M0, 6 * w.n) /\ IsDiag(w.Minv0, 6 * w.n) /\ Recip(w.M0, w.Minv0)
             /\ \A i \in 1..w.n : \A k \in 1..2 : Diag(w.M0)[3 * i - k] = Diag(w.M0)[3 * i]
             /\ Spatial(w, w.M0, w.M) /\ Spatial(w, w.Minv0, w.Minv)
     ELSE /\ IsDiag(w.M, VD(w) * w.n) /\ IsDiag(w.Minv, VD(w) * w.n) /\ Recip(w.M, w.Minv)
          /\ \A i \in 1..w.n : Diag(w.M)[VD(w) * (i - 1) + 1] = Diag(w.M)[VD(w) * (i - 1) + 2]
(* ------------------------------- the edits ------------------------------ *)
Prefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
\* the world after differs from the one before in the named components only (forces follow from the rest)
Frame(w, u, ch) == DOMAIN u = DOMAIN w /\ \A f \in DOMAIN w \ (ch \cup { "F", "U" }) : u[f] = w[f]
Mass == { "M", "Minv" }
Grown(w, u, m) == /\ Prefix(Diag(w.M), Diag(u.M)) /\ Prefix(Diag(w.Minv), Diag(u.Minv))
                  /\ VClose(SubSeq(Diag(u.M), Len(w.M.e) + 1, Len(u.M.e)), m, Tol)
PushBall(w, a, u) ==
  /\ Frame(w, u, { "n", "q", "v", "r", "fixed" } \cup Mass)
  /\ u.n = w.n + 1 /\ u.q = w.q \o a.x /\ u.v = w.v \o a.v /\ u.r = Append(w.r, a.r) /\ u.fixed = Append(w.fixed, a.fixed)
  /\ Grown(w, u, << a.m, a.m >>)
AddBody(w, a, u) ==
  LET g == w.geos[a.geo] IN
  /\ Frame(w, u, { "n", "q", "v", "gi", "fixed" } \cup Mass)
  /\ u.n = w.n + 1 /\ u.q = w.q \o a.x /\ u.v = w.v \o a.v /\ u.gi = Append(w.gi, a.geo) /\ u.fixed = Append(w.fixed, a.fixed)
  /\ Grown(w, u, << RMul(a.rho, g.m), RMul(a.rho, g.m), RMul(a.rho, g.I) >>)
\* the positions outside D, in order
Rest(n, D) == SelectSeq([i \in 1..n |-> i], LAMBDA i : i \notin D)
Pick(s, k, keep) == [j \in 1..(k * Len(keep)) |-> s[k * (keep[((j - 1) \div k) + 1] - 1) + ((j - 1) % k) + 1]]
ToSet(s) == { s[i] : i \in 1..Len(s) }
RemoveBodies(w, a, u) ==
  LET keep == Rest(w.n, ToSet(a.which)) IN
  /\ Frame(w, u, { "n", "q", "v", "gi", "fixed" } \cup Mass)
  /\ u.n = Len(keep) /\ u.q = Pick(w.q, 3, keep) /\ u.v = Pick(w.v, 3, keep) /\ u.gi = Pick(w.gi, 1, keep) /\ u.fixed = Pick(w.fixed, 1, keep)
  /\ Diag(u.M) = Pick(Diag(w.M), 3, keep) /\ Diag(u.Minv) = Pick(Diag(w.Minv), 3, keep)
AddCircle(w, a, u) ==
  /\ Frame(w, u, { "geos" }) /\ Len(u.geos) = Len(w.geos) + 1 /\ Prefix(w.geos, u.geos)
  /\ u.geos[Len(u.geos)].kind = "circle" /\ u.geos[Len(u.geos)].r = << a.r >>
RemoveGeometry(w, a, u) ==
  LET D == ToSet(a.which) IN
  /\ Frame(w, u, { "geos", "gi" })
  /\ u.geos = Pick(w.geos, 1, Rest(Len(w.geos), D))
  /\ u.gi = [i \in 1..w.n |-> w.gi[i] - Cardinality({ d \in D : d < w.gi[i] })]
ErasePlane(w, a, u) == Frame(w, u, { "planes" }) /\ u.planes = Pick(w.planes, 1, Rest(Len(w.planes), { a.k }))
Appended(w, u, f, g(_)) == Frame(w, u, { f }) /\ Len(u[f]) = Len(w[f]) + 1 /\ Prefix(w[f], u[f]) /\ g(u[f][Len(u[f])])
AddPlane(w, a, u) == Appended(w, u, "planes", LAMBDA p : p.x = a.x /\ VClose(p.n, a.n, Tol) /\ p.v = a.v /\ p.w = a.w)
AddCylinder(w, a, u) == Appended(w, u, "cyls", LAMBDA p : p.x = a.x /\ VClose(p.a, a.a, Tol) /\ p.r = a.r /\ p.w = a.w)
AddPortal(w, a, u) == Appended(w, u, "portals", LAMBDA p : p.a.x = a.xa /\ p.b.x = a.xb /\ VClose(p.a.n, a.na, Tol) /\ VClose(p.b.n, a.nb, Tol))
Edge(w, a, u) == Frame(w, u, { "edge", "emin", "emax" }) /\ u.edge = a.edge /\ u.emin = a.lo /\ u.emax = a.hi
AddForce(w, a, u) == Frame(w, u, { "forces" }) /\ u.forces = w.forces + 1
SetMass(w, a, u) == Frame(w, u, Mass) /\ Diag(u.M) = a.m
Move(w, a, u) == Frame(w, u, { "q", "v" } \cup Mass) /\ u.q = a.q /\ u.v = a.v
\* a fresh set of bodies; what is around them stays
SetState(w, a, u) ==
  LET n == Len(a.fixed) IN
  /\ Frame(w, u, { "n", "q", "v", "fixed", "gi", "geos", "M0", "Minv0" } \cup Mass)
  /\ u.n = n /\ u.q = a.q /\ u.v = a.v /\ u.fixed = a.fixed /\ u.gi = a.gi /\ Len(u.geos) = a.ngeo
  /\ \A i \in 1..n : Diag(u.M0)[3 * i] = a.m[i] /\ SubSeq(Diag(u.M0), 3 * n + 3 * i - 2, 3 * n + 3 * i) = a.I[i]
Edit(w, ev, u) ==
  CASE ev.op = "push" -> PushBall(w, ev.a, u)
    [] ev.op = "body" -> AddBody(w, ev.a, u)
    [] ev.op = "unbody" -> RemoveBodies(w, ev.a, u)
    [] ev.op = "circle" -> AddCircle(w, ev.a, u)
    [] ev.op = "ungeo" -> RemoveGeometry(w, ev.a, u)
    [] ev.op = "unplane" -> ErasePlane(w, ev.a, u)
    [] ev.op = "plane" -> AddPlane(w, ev.a, u)
    [] ev.op = "cyl" -> AddCylinder(w, ev.a, u)
    [] ev.op = "portal" -> AddPortal(w, ev.a, u)
    [] ev.op = "edge" -> Edge(w, ev.a, u)
    [] ev.op = "force" -> AddForce(w, ev.a, u)
    [] ev.op = "mass" -> SetMass(w, ev.a, u)
    [] ev.op = "move" -> Move(w, ev.a, u)
    [] ev.op = "state" -> SetState(w, ev.a, u)
    \* a copy is the same world, and stays so whatever happens to the original, and conversely
    [] ev.op = "copy" -> u = w /\ ev.a.copy = w /\ ev.a.later = w
    \* what was saved is what is loaded, whatever the simulation held before; nothing more is read, and saving again gives the same bytes
    [] ev.op = "save" -> u = w /\ ev.a.rest /\ ev.a.again
=============================================================================
