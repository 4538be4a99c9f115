------------------------------- MODULE ChainMC -------------------------------
(* Equal balls touching in a row, elastic, resolved by sweeping over the      *)
(* contacts: each resolved contact exchanges two velocities.  However the     *)
(* contacts are ordered, this ends, with the velocities sorted.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, V
VARIABLES v, init
vars == << v, init >>
Starts == UNION {[1..n -> V] : n \in 2..MaxN}
Init == v \in Starts /\ init = v
Approaching(i) == v[i] > v[i + 1]
Resolve(i) == Approaching(i) /\ v' = [v EXCEPT ![i] = v[i + 1], ![i + 1] = v[i]] /\ UNCHANGED init
Next == \E i \in 1..(Len(v) - 1) : Resolve(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameVelocities == \A x \in V : Count(v, x) = Count(init, x)
Inversions == Cardinality({<< i, j >> \in (1..Len(v)) \X (1..Len(v)) : i < j /\ v[i] > v[j]})
Shrinks == [][Cardinality({<< i, j >> \in (1..Len(v)) \X (1..Len(v)) : i < j /\ v'[i] > v'[j]}) = Inversions - 1]_vars
DoneIsSorted == (~ENABLED Next) => \A i \in 1..(Len(v) - 1) : v[i] <= v[i + 1]
Ends == <>[](\A i \in 1..(Len(v) - 1) : v[i] <= v[i + 1])
Emit == v = init => PrintT("@@B " \o ToJson(v))
=============================================================================
