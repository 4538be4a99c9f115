------------------------------ MODULE WholeMC ------------------------------
(***************************************************************************)
(* The laws behind Whole.tla, on a row of touching bodies on a line, with  *)
(* or without a wall on the left, in a uniform field.  A step kicks all    *)
(* velocities and then applies any impulses that are complementary to the  *)
(* separation with restitution E2 / 2.  Whatever the impulses, momentum    *)
(* changes by the kick alone unless the wall pushed, and energy is lost    *)
(* when there is no restitution, or restitution and no field.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxN, MaxV, MaxA
VARIABLES n, m, wall, e2, g, v
vars == << n, m, wall, e2, g, v >>
Vs == (0 - MaxV)..MaxV
Init == /\ n \in 2..MaxN /\ m \in [1..n -> {1, 2}] /\ wall \in BOOLEAN /\ e2 \in {0, 1, 2} /\ g \in {-2, 0, 2}
        /\ v \in [1..n -> {x \in Vs : x % 2 = 0}] /\ (e2 # 0 => g = 0)
\* contact 0 is the wall's; contact k lies between bodies k and k + 1
Contacts == IF wall THEN 0..(n - 1) ELSE 1..(n - 1)
Sep(k, u) == IF k = 0 THEN u[1] ELSE u[k + 1] - u[k]
Kicked == [i \in 1..n |-> v[i] + g]
Pushed(a) == [i \in 1..n |-> (IF i - 1 \in Contacts THEN a[i - 1] ELSE 0) - (IF i \in Contacts THEN a[i] ELSE 0)]
Whole(a) == \A i \in 1..n : Pushed(a)[i] % m[i] = 0
After(a) == [i \in 1..n |-> Kicked[i] + Pushed(a)[i] \div m[i]]
Answer(a, u) == \A k \in Contacts : LET s == 2 * Sep(k, u) + e2 * Sep(k, v) IN s >= 0 /\ (a[k] > 0 => s = 0)
Step == \E a \in [Contacts -> 0..MaxA] :
  /\ Whole(a) /\ Answer(a, After(a)) /\ v' = After(a) /\ (\A i \in 1..n : v'[i] \in Vs) /\ UNCHANGED << n, m, wall, e2, g >>
Next == Step
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
Tot(f) == Sum(f, n)
\* twice the kinetic energy
T2(u) == Tot([i \in 1..n |-> m[i] * u[i] * u[i]])
Momentum == [][~ wall => Tot([i \in 1..n |-> m[i] * v'[i]]) = Tot([i \in 1..n |-> m[i] * (v[i] + g)])]_vars
\* the potential falls by m g v' over the step: E1 - E0, doubled
Lost == [][T2(v') - T2(v) - 2 * Tot([i \in 1..n |-> m[i] * g * v'[i]]) <= 0]_vars
Elastic == [][e2 = 2 => T2(v') = T2(v)]_vars
=============================================================================
