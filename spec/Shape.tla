------------------------------- MODULE Shape -------------------------------
(***************************************************************************)
(* Shapes of bodies and what follows from them: the extent along the axes  *)
(* when placed at x with orientation R (nine numbers, row by row; in the   *)
(* plane an angle), and the volume, centre of mass and inertia of the      *)
(* solid.  A shape is [kind, ...]: circle and sphere (r), box (half        *)
(* widths w), staple (three rods of radius r: a bar of length w between    *)
(* two legs of length l), mesh (vertices and triangles).                   *)
(***************************************************************************)
EXTENDS Num, Sequences, TLC
Row(R, r) == SubSeq(R, 3 * r - 2, 3 * r)
Ap(R, x) == << RDot(Row(R, 1), x), RDot(Row(R, 2), x), RDot(Row(R, 3), x) >>
AbsV(x) == [i \in 1..Len(x) |-> RAbs(x[i])]
Least(S) == LET m[k \in 1..Len(S)] == IF k = 1 THEN S[1] ELSE RMin(m[k - 1], S[k]) IN m[Len(S)]
Most(S) == LET m[k \in 1..Len(S)] == IF k = 1 THEN S[1] ELSE RMax(m[k - 1], S[k]) IN m[Len(S)]
Plane(th) == << << RCos(th), RNeg(RSin(th)) >>, << RSin(th), RCos(th) >> >>
\* the staple's four corners about its centre of mass, in the x-y plane
Rise(s) == RDiv(RMul(s.l, s.l), RAdd(RMul(2, s.l), s.w))
Corners(s) == LET h == RDiv(s.w, 2)  y == Rise(s) IN
  << << RNeg(h), RSub(s.l, y), 0 >>, << RNeg(h), RNeg(y), 0 >>, << h, RNeg(y), 0 >>, << h, RSub(s.l, y), 0 >> >>
Cloud(P, R, pad) == LET Q == TLCEval([k \in 1..Len(P) |-> Ap(R, P[k])]) IN
  [lo |-> [i \in 1..3 |-> RSub(Least([k \in 1..Len(Q) |-> Q[k][i]]), pad)],
   hi |-> [i \in 1..3 |-> RAdd(Most([k \in 1..Len(Q) |-> Q[k][i]]), pad)]]
Around(e) == [lo |-> VNeg(e), hi |-> e]
\* the extent relative to the centre
Extent(s, R) ==
  CASE s.kind = "circle" -> Around(<< s.r, s.r >>)
    [] s.kind = "sphere" -> Around(<< s.r, s.r, s.r >>)
    [] s.kind = "box2" -> LET P == Plane(R) IN Around(<< RDot(AbsV(P[1]), s.w), RDot(AbsV(P[2]), s.w) >>)
    [] s.kind = "box" -> Around(Ap(AbsV(R), s.w))
    [] s.kind = "staple" -> Cloud(Corners(s), R, s.r)
    [] s.kind = "mesh" -> Cloud(s.verts, R, 0)
Bounds(s, x, R) == LET e == TLCEval(Extent(s, R)) IN [lo |-> VAdd(x, e.lo), hi |-> VAdd(x, e.hi)]
(* ----------------------- volume, centre, inertia ----------------------- *)
Sq(x) == RMul(x, x)
\* the tetrahedron of the origin and a triangle; sums over a closed surface give the solid's moments
Det3(a, b, c) == RDot(a, Cross3(b, c))
Tri(s, k) == << s.verts[s.faces[k][1]], s.verts[s.faces[k][2]], s.verts[s.faces[k][3]] >>
Sum(f(_), n) == RSumSeq([k \in 1..n |-> f(k)])
Vol(s) == RDiv(Sum(LAMBDA k : LET t == Tri(s, k) IN Det3(t[1], t[2], t[3]), Len(s.faces)), 6)
First(s, i) == RDiv(Sum(LAMBDA k : LET t == Tri(s, k) IN RMul(Det3(t[1], t[2], t[3]), RSumSeq(<< t[1][i], t[2][i], t[3][i] >>)), Len(s.faces)), 24)
\* integral of x_i x_j
Second(s, i, j) ==
  RDiv(Sum(LAMBDA k : LET t == Tri(s, k)
                          S(a) == RSumSeq(<< t[1][a], t[2][a], t[3][a] >>)
                      IN RMul(Det3(t[1], t[2], t[3]), RAdd(RMul(S(i), S(j)), RSumSeq(<< RMul(t[1][i], t[1][j]), RMul(t[2][i], t[2][j]), RMul(t[3][i], t[3][j]) >>))), Len(s.faces)), 120)
\* inertia tensor about the centre of mass, entry (i, j)
Tensor(s) ==
  LET V == TLCEval(Vol(s))
      c == TLCEval([i \in 1..3 |-> RDiv(First(s, i), V)])
      P == TLCEval([i \in 1..3 |-> [j \in 1..3 |-> RSub(Second(s, i, j), RMul(V, RMul(c[i], c[j])))]])
      t == RSumSeq(<< P[1][1], P[2][2], P[3][3] >>) IN
  [V |-> V, c |-> c, I |-> [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN RSub(t, P[i][j]) ELSE RNeg(P[i][j])]]]
\* per unit density: mass, and principal moments about the centre of mass along the shape's own axes
Rod(len, r) == RMul(len, RMul(RPi, Sq(r)))
Solid(s) ==
  CASE s.kind = "circle" -> LET m == RMul(RPi, Sq(s.r)) IN [m |-> m, I |-> << RDiv(RMul(m, Sq(s.r)), 2) >>]
    [] s.kind = "box2" -> LET m == RMul(4, RMul(s.w[1], s.w[2])) IN [m |-> m, I |-> << RDiv(RMul(m, VNorm2(s.w)), 3) >>]
    [] s.kind = "sphere" -> LET m == RDiv(RMul(4, RMul(RPi, RMul(s.r, Sq(s.r)))), 3)  i == RDiv(RMul(2, RMul(m, Sq(s.r))), 5) IN [m |-> m, I |-> << i, i, i >>]
    [] s.kind = "box" -> LET m == RMul(8, RMul(s.w[1], RMul(s.w[2], s.w[3])))
                             f(a, b) == RDiv(RMul(m, RAdd(Sq(s.w[a]), Sq(s.w[b]))), 3) IN [m |-> m, I |-> << f(2, 3), f(1, 3), f(1, 2) >>]
    [] s.kind = "staple" ->
         LET mb == Rod(s.w, s.r)  ml == Rod(s.l, s.r)  y == Rise(s)
             along(m) == RDiv(RMul(m, Sq(s.r)), 2)                                        \* a rod about its own axis
             across(m, len) == RDiv(RMul(m, RAdd(RMul(3, Sq(s.r)), Sq(len))), 12)         \* and about a line across
             dx == RDiv(s.w, 2)  dy == RSub(RDiv(s.l, 2), y)
         IN [m |-> RAdd(mb, RMul(2, ml)),
             I |-> << RAdd(RAdd(along(mb), RMul(mb, Sq(y))), RMul(2, RAdd(across(ml, s.l), RMul(ml, Sq(dy))))),
                      RAdd(across(mb, s.w), RMul(2, RAdd(along(ml), RMul(ml, Sq(dx))))),
                      RAdd(RAdd(across(mb, s.w), RMul(mb, Sq(y))), RMul(2, RAdd(across(ml, s.l), RMul(ml, RAdd(Sq(dx), Sq(dy)))))) >>]
(* --------------------- a sampled distance function --------------------- *)
Dist(f, i, j, k) == f.d[(k * f.dims[2] + j) * f.dims[1] + i + 1]
\* the cell of x (the last one for a point on the far faces), and where x lies in it
Cell(f, x, a) == LET c == RFloor(RDiv(RSub(x[a], f.o[a]), f.h[a])) IN RToInt(RMin(RMax(c, 0), f.dims[a] - 2))
Lerp(t, a, b) == RAdd(RMul(RSub(1, t), a), RMul(t, b))
Field(f, x) ==
  LET c == TLCEval([a \in 1..3 |-> Cell(f, x, a)])
      t == TLCEval([a \in 1..3 |-> RSub(RDiv(RSub(x[a], f.o[a]), f.h[a]), c[a])])
      D(i, j, k) == Dist(f, c[1] + i, c[2] + j, c[3] + k)
      yz(i) == Lerp(t[3], Lerp(t[2], D(i, 0, 0), D(i, 1, 0)), Lerp(t[2], D(i, 0, 1), D(i, 1, 1)))
      xz(j) == Lerp(t[3], Lerp(t[1], D(0, j, 0), D(1, j, 0)), Lerp(t[1], D(0, j, 1), D(1, j, 1)))
      xy(k) == Lerp(t[2], Lerp(t[1], D(0, 0, k), D(1, 0, k)), Lerp(t[1], D(0, 1, k), D(1, 1, k)))
  IN [d |-> Lerp(t[1], yz(0), yz(1)),
      n |-> << RDiv(RSub(yz(1), yz(0)), f.h[1]), RDiv(RSub(xz(1), xz(0)), f.h[2]), RDiv(RSub(xy(1), xy(0)), f.h[3]) >>,
      edge |-> \E a \in 1..3 : LET z == RSub(t[a], RFloor(t[a])) IN RLt(z, "1e-9") \/ RLt("0.999999999", z)]
=============================================================================
