------------------------- MODULE Ball2DContactTrace -------------------------
(* Active sets computed by the real planar ball simulator.                  *)
EXTENDS TraceBase, Ball2D
CONSTANT Aspect                     \* "detect" or "kinematics"
Tol == "1e-9"
Init == l = 1
Active ==
  /\ IsEvent("active")
  /\ Holds(LET s == Ev.s
         slack == IF Ev.exact THEN 0 ELSE "1e-9"
     IN IF Aspect = "detect"
        THEN /\ \A k \in 1..Len(Ev.cs) : Valid(s, Ev.cs[k], Tol, slack)
             /\ Complete(s, Ev.cs, slack)
        ELSE \A k \in 1..Len(Ev.cs) :
               LET c == Ev.cs[k] IN
               Kinematics("b2", N(s), c, c.s0 + 1, c.s1 + 1, c.n, << 0, 0 >>, << 0, 0 >>, KinVel(s, c), Ev.v, Tol))
  /\ l' = l + 1
\* the collision statistics agree with the contacts of the current state
Stats ==
  /\ IsEvent("stats")
  /\ LET names == {Ev.cs[k].name : k \in 1..Len(Ev.cs)}
         Cnt(nm) == Cardinality({k \in 1..Len(Ev.cs) : Ev.cs[k].name = nm})
     IN /\ {Ev.st[k].name : k \in 1..Len(Ev.st)} = names
        /\ Len(Ev.st) = Cardinality(names)
        /\ \A k \in 1..Len(Ev.st) :
             /\ Ev.st[k].count = Cnt(Ev.st[k].name)
             /\ (RFinite(Ev.st[k].depth) =>
                 Close(Ev.st[k].depth, RSumSeq([m \in 1..Len(Ev.cs) |-> IF Ev.cs[m].name = Ev.st[k].name THEN Ev.cs[m].depth ELSE 0]), Tol))
  /\ l' = l + 1
Next == Active \/ Stats
=============================================================================
