------------------------------ MODULE CacheTrace ------------------------------
(* The real caches taken through histories of the model. *)
EXTENDS TraceBase, Num, Cache
VARIABLES size, keys
Init == l = 1 /\ cache = Empty /\ size = 0 /\ keys = << >>
Zero == [i \in 1..size |-> RMul(0, 1)]
\* three different contacts of one scene
New == IsEvent("new") /\ \A i, j \in 1..3 : i # j => Ev.keys[i] # Ev.keys[j]
       /\ cache' = Empty /\ size' = Ev.size /\ keys' = Ev.keys
Same(x, y) == Len(x) = Len(y) /\ VEq(x, y)
Op == IsEvent("op") /\ (Ev.op = "put" => CanPut(cache, Ev.k))
      /\ cache' = Apply(cache, Ev.op, Ev.k, Ev.r)
      /\ Holds(/\ Ev.empty = (DOMAIN cache' = {})
               /\ \A k \in 1..3 : Same(Ev.got[k], Read(cache', k, Zero)))
      /\ UNCHANGED << size, keys >>
Next == l' = l + 1 /\ (New \/ Op)
=============================================================================
