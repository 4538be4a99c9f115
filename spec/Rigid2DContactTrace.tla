------------------------ MODULE Rigid2DContactTrace ------------------------
(* Active sets computed by the real planar rigid body simulator.           *)
EXTENDS TraceBase, Rigid2D
CONSTANT Aspect                     \* "detect" or "kinematics"
Tol == "1e-8"
Init == l = 1
Active ==
  /\ IsEvent("active")
  /\ Holds(LET s == Ev.s
         slack == IF Ev.exact THEN 0 ELSE "1e-9"
     IN IF Aspect = "detect"
        THEN /\ \A k \in 1..Len(Ev.cs) : Valid(s, Ev.cs[k], Tol, slack)
             /\ Complete(s, Ev.cs, Tol, slack)
        ELSE \A k \in 1..Len(Ev.cs) :
               LET c == Ev.cs[k] IN
               Kinematics("r2", N(s), c, c.s0 + 1, c.s1 + 1, c.n, Arm0(s, c), Arm1(s, c), KinVel(s, c, Ev.v), Ev.v, Tol))
  /\ l' = l + 1
\* the contact points shown to the user are those of the current state's contacts, in order
Points == IsEvent("points") /\ Ev.st = Ev.cs /\ l' = l + 1
Next == Active \/ Points
=============================================================================
