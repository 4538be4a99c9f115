---------------------------- MODULE ExportTrace ----------------------------
(***************************************************************************)
(* 3D worlds written out as scene files.  An event holds the world `w`,    *)
(* what the exporter answered, and the document it wrote in the form of    *)
(* Scene.tla; `Describes` is the meaning a scene document has there.       *)
(***************************************************************************)
EXTENDS TraceBase, Scene
Init == l = 1
\* the same to the precision of a double, however small
Same(a, b) == RLe(RAbs(RSub(a, b)), RMul("1e-14", RAbs(b)))
Written(e, g) ==
  CASE Word(e, "type") = "sphere" -> g.kind = "sphere" /\ Same(V1(e, "r"), g.p[1])
    [] Word(e, "type") = "mesh" -> g.kind = "triangle_mesh" /\ g.file = Word(e, "filename")
    [] OTHER -> FALSE
Needed == { "x", "v", "omega", "rho", "fixed", "geo_idx" }
VNear(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Same(a[k], b[k])
Said(doc, w) ==
  LET b == All(doc, "rigid_body_with_density")  s == All(doc, "geometry")  n == Len(b) IN
  /\ Len(doc) = n + Len(s)
  /\ Len(s) = Len(w.geos) /\ \A k \in 1..Len(s) : Written(s[k], w.geos[k])
  /\ n = w.n
  /\ \A k \in 1..n : Needed \subseteq DOMAIN b[k].a
  /\ \A k \in 1..n :
       LET e == b[k]  g == w.geos[w.gi[k]]  rho == V1(e, "rho")
           R == SubSeq(w.q, 3 * n + 9 * k - 8, 3 * n + 9 * k)
           still == IF Has(e, "R") THEN \A j \in 1..3 : RSign(Vec(e, "R")[j]) = 0 ELSE TRUE IN
       /\ e.a["geo_idx"].i[1] + 1 = w.gi[k] /\ Flag(e, "fixed") = w.fixed[k]
       /\ VNear(Vec(e, "v"), SubSeq(w.v, 3 * k - 2, 3 * k)) /\ VNear(Vec(e, "omega"), SubSeq(w.v, 3 * n + 3 * k - 2, 3 * n + 3 * k))
       /\ VClose(SubSeq(w.q, 3 * k - 2, 3 * k), VAdd(Vec(e, "x"), g.cm), STol)
       /\ VClose(R, IF still THEN g.R0 ELSE Times(Turn(Vec(e, "R")), g.R0), STol)
       /\ \A j \in 0..2 : Close(Diag2(w.M0)[3 * k - j], RMul(rho, g.m), STol)
Export(ev) ==
  /\ ev.kept
  /\ IF ev.to # "disk" THEN ~ev.ok ELSE ev.ok /\ ev.root = "rigidbody3d_scene" /\ Said(ev.doc, ev.w)
Next == l' = l + 1 /\ IsEvent("export") /\ Holds(Export(Ev))
=============================================================================
