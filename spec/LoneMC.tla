------------------------------- MODULE LoneMC -------------------------------
(***************************************************************************)
(* What the one-contact law implies over a run.  A block on a slope: x is  *)
(* its speed along the slope, y away from it, gt and gn > 0 the field per  *)
(* step along and into the slope, mu its friction, e2 / 2 its restitution. *)
(* Two orders of a step exist: the force first (the contact is solved for  *)
(* the velocity the force left), or last (the contact is solved, then the  *)
(* force acts).                                                            *)
(***************************************************************************)
EXTENDS Integers, TLC
CONSTANTS MaxG, MaxMu, MaxV, Far
VARIABLES first, gt, gn, mu, e2, x, y
vars == << first, gt, gn, mu, e2, x, y >>
Abs(a) == IF a < 0 THEN 0 - a ELSE a
Sgn(a) == IF a < 0 THEN 0 - 1 ELSE IF a > 0 THEN 1 ELSE 0
Low(a, b) == IF a < b THEN a ELSE b
\* normal impulse (doubled where it matters by e2) and the friction it allows; even approach speeds keep integers
Push(b) == IF b < 0 THEN ((2 + e2) * (0 - b)) \div 2 ELSE 0
Solve(a, b) == [x |-> a - Sgn(a) * Low(Abs(a), mu * Push(b)), y |-> b + Push(b)]
\* speeds are even, so halves stay whole
Init == /\ first \in BOOLEAN /\ gt \in {2 * k : k \in 0..MaxG} /\ gn \in {2 * k : k \in 0..MaxG} /\ mu \in 0..MaxMu /\ e2 \in {0, 1, 2}
        /\ (gt # 0 \/ gn # 0 => e2 = 0)
        /\ x \in {2 * k : k \in (0 - MaxV)..MaxV} /\ y \in {4 * k : k \in (0 - MaxV)..0}
Next == LET s == IF first THEN Solve(x + gt, y - gn) ELSE LET c == Solve(x, y) IN [x |-> c.x + gt, y |-> c.y - gn]
        IN /\ Abs(x) <= Far /\ x' = s.x /\ y' = s.y /\ UNCHANGED << first, gt, gn, mu, e2 >>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Sticky == mu * gn >= gt
Touching == e2 = 0 /\ gn > 0
\* below the friction angle a block comes to rest and stays, above it gains exactly the difference
Rest == first /\ Touching /\ mu * gn > gt => <>[](x = 0)
Stays == [][first /\ Touching /\ Sticky /\ x = 0 /\ y = 0 => x' = 0]_vars
Creep == [][~ first /\ Touching /\ Sticky /\ x = gt /\ y = 0 - gn => x' = gt]_vars
Slides == [][Touching /\ ~ Sticky /\ x >= 0 /\ y = (IF first THEN 0 ELSE 0 - gn) /\ (first \/ x >= gt) => x' = x + gt - mu * gn]_vars
\* without a field friction only slows, and never turns a body round
Slows == [][gt = 0 /\ gn = 0 => Abs(x') <= Abs(x) /\ x * x' >= 0]_vars
Bounces == [][gt = 0 /\ gn = 0 /\ y < 0 => 2 * y' = e2 * (0 - y)]_vars
Parts == [][first => y' >= 0]_vars
=============================================================================
