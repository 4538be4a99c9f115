------------------------------ MODULE Scripts -------------------------------
(* What a script's removals mean: of n things, numbered from 0, those named  *)
(* go, the others keep their order, and whatever refers to one follows it.   *)
EXTENDS Integers, Sequences, FiniteSets
Named(ks) == {ks[i] : i \in 1..Len(ks)}
Kept(n, gone) == SelectSeq([i \in 1..n |-> i - 1], LAMBDA i : i \notin gone)
\* entries of the kept things, each of which has d of them
Gathered(s, kept, d) == [a \in 1..(d * Len(kept)) |-> s[d * kept[((a - 1) \div d) + 1] + ((a - 1) % d) + 1]]
Shifted(i, gone) == i - Cardinality({j \in gone : j < i})
Used(geo, i) == \E b \in 1..Len(geo) : geo[b] = i
=============================================================================
