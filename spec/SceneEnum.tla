------------------------------ MODULE SceneEnum ------------------------------
(* Every way in which one place of a scene file can be wrong: each attribute *)
(* of each element, as its type allows, and faults of the whole document.    *)
EXTENDS Scene, Json
VARIABLES plan
Broken(ty) ==
  { "missing" } \cup
  CASE ty = "R" -> { "empty", "junk" }
    [] ty = "P" -> { "empty", "junk", "neg", "zero" }
    [] ty = "L" -> { "empty", "junk", "neg" }
    [] ty = "N" -> { "empty", "junk", "neg", "zero" }
    [] ty = "U" -> { "empty", "junk", "neg", "two" }
    [] ty = "B" -> { "empty", "junk", "two" }
    [] ty = "Q" -> { "empty", "junk", "neg", "zero" }
    [] ty = "K" -> { "empty", "junk" }
    [] ty = "C" -> { "empty", "junk", "neg", "zero" }
    [] ty = "V" -> { "empty", "junk", "short", "long", "zeroall" }
    [] ty = "Z" -> { "empty", "junk", "short", "long", "zeroall" }
    [] ty = "A" -> { "empty", "junk", "short", "long", "zeroone", "negone", "neg", "zero" }
    [] ty = "M" -> { "empty", "junk", "short", "long", "zeroone", "negone" }
    [] ty = "S" -> { "empty", "junk", "short", "long", "zeroone", "twoone" }
    [] ty = "shape" -> { "empty", "junk", "count", "big", "low" }
    [] ty \in { "plane", "cyl" } -> { "empty", "junk", "count", "big" }
    [] ty = "T" -> {}
    [] OTHER -> { "empty", "junk" }
Lays == { "b2", "r2", "r3" }
Places == UNION { UNION { { << la, t, Grammar(la, t)[k][1], f >> : f \in Broken(Grammar(la, t)[k][2]) } : k \in 1..Len(Grammar(la, t)) } : << la, t >> \in { << x, y >> \in Lays \X UNION { Known(z) : z \in Lays } : y \in Known(x) } }
\* a plane that two portals use: which portal of which kind uses it first and which next
Kinds == { << "planar_portal", "planar_portal" >>, << "planar_portal", "lees_edwards_portal" >>, << "lees_edwards_portal", "lees_edwards_portal" >> }
Reused == { << la, k[1] \o ":" \o k[2], "", "used:" \o x \o ":" \o y >> : la \in { "b2", "r2" }, k \in Kinds, x \in { "planeA", "planeB" }, y \in { "planeA", "planeB" } }
          \cup { << "r3", "planar_portal:planar_portal", "", "used:" \o x \o ":" \o y >> : x \in { "planeA", "planeB" }, y \in { "planeA", "planeB" } }
Whole == { << la, t, "", "gone" >> : la \in Lays, t \in { "integrator" } } \cup { << la, "", "", f >> : la \in Lays, f \in { "root", "form", "both", "foreign", "nameless", "coarse" } }
         \cup Reused
         \cup { << la, "planar_portal", "", "same" >> : la \in Lays } \cup { << la, "lees_edwards_portal", "", "same" >> : la \in { "b2", "r2" } }
         \cup { << la, "impact_operator", "", "childless" >> : la \in Lays } \cup { << la, "elastic_operator", "", "childless" >> : la \in Lays } \cup { << la, "static_plane", "", "gone" >> : la \in Lays }
         \cup { << la, "", "", "bouncy" >> : la \in { "b2", "r3" } } \cup { << "r3", "", "", "thick" >>, << "r3", "", "", "flat" >>, << "r3", "static_cylinder", "", "gone" >> }
         \cup { << "r2", "geometry", "", "gone" >>, << "r3", "geometry", "", "gone" >> }
Init == plan \in Places \cup Whole
Next == UNCHANGED plan
Emit == PrintT("@@B " \o ToJson([lay |-> plan[1], t |-> plan[2], a |-> plan[3], f |-> plan[4]]))
=============================================================================
