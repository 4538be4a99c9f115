------------------------ MODULE Rigid3DContactTrace ------------------------
(* Active sets computed by the real spatial rigid body simulator.          *)
EXTENDS TraceBase, Rigid3D
CONSTANT Aspect                     \* "detect" or "kinematics"
Tol == "1e-7"
Init == l = 1
Active ==
  /\ IsEvent("active")
  /\ Holds(LET s == Ev.s
         slack == IF Ev.exact THEN 0 ELSE "1e-9"
     IN IF Aspect = "detect"
        THEN /\ \A k \in 1..Len(Ev.cs) : Valid(s, Ev.cs[k], Tol, slack)
             /\ \A k \in 1..Len(Ev.bs) : CylBody(s, Ev.bs[k], Tol, slack)
             /\ Complete(s, Ev.cs, Ev.bs, Tol, slack)
        ELSE /\ \A k \in 1..Len(Ev.cs) :
                  LET c == Ev.cs[k] IN
                  Kinematics("r3", N(s), c, c.s0 + 1, c.s1 + 1, c.n, Arm0(s, c), Arm1(s, c), KinVel(s, c), Ev.v, Tol)
             /\ \A k \in 1..Len(Ev.bs) : BareKinematics(s, Ev.bs[k], Ev.v, Tol))
  /\ l' = l + 1
\* the statistics count contacts and add up depths and shared volumes, kind by kind
Sum(S, f) == LET RECURSIVE G(_) G(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN RAdd(f[x], G(T \ {x})) IN G(S)
Stats ==
  /\ IsEvent("stats")
  /\ Holds(LET cs == Ev.cs
               names == {cs[k].name : k \in 1..Len(cs)}
               vol == [k \in 1..Len(cs) |-> IF cs[k].name = "sphere_sphere"
                         THEN Lens(VNorm(VSub(Ev.x[cs[k].b0 + 1], Ev.x[cs[k].b1 + 1])), Ev.r[cs[k].b0 + 1], Ev.r[cs[k].b1 + 1]) ELSE 0]
               dep == [k \in 1..Len(cs) |-> cs[k].depth]
           IN /\ {Ev.st[m].name : m \in 1..Len(Ev.st)} = names /\ Len(Ev.st) = Cardinality(names)
              /\ \A m \in 1..Len(Ev.st) :
                   LET S == {k \in 1..Len(cs) : cs[k].name = Ev.st[m].name} IN
                   /\ Ev.st[m].count = Cardinality(S)
                   /\ Close(Ev.st[m].depth, Sum(S, dep), Tol)
                   /\ Ev.st[m].name = "sphere_sphere" => Close(Ev.st[m].vol, Sum(S, vol), Tol))
  /\ l' = l + 1
Next == Active \/ Stats
=============================================================================
