------------------------------- MODULE CacheMC -------------------------------
(* All histories of the cache on three contacts, up to a depth. *)
EXTENDS Cache, TLC, Json
CONSTANTS Depth
VARIABLES hist, live                               \* live: contacts entered since the last clearing
Keys == 1..3
Code == [put |-> 0, clear |-> 1, save |-> 2]
Init == cache = Empty /\ hist = << >> /\ live = {}
Do(op, k) == /\ Len(hist) < Depth /\ (op = "put" => CanPut(cache, k))
             /\ cache' = Apply(cache, op, k, << Len(hist) >>)
             /\ hist' = Append(hist, << Code[op], k >>)
             /\ live' = IF op = "put" THEN live \cup {k} ELSE IF op = "clear" THEN {} ELSE live
Next == (\E k \in Keys : Do("put", k)) \/ Do("clear", 1) \/ Do("save", 1)
\* exactly the contacts entered since the last clearing are there
Exact == DOMAIN cache = live
\* and each reads as what was last entered for it
LastPut(k) == CHOOSE i \in 1..Len(hist) : hist[i] = << 0, k >> /\ \A j \in (i+1)..Len(hist) : hist[j] # << 0, k >>
Reads == \A k \in live : Read(cache, k, << >>) = << LastPut(k) - 1 >>
Emit == Len(hist) = Depth => PrintT("@@B " \o ToJson(hist))
=============================================================================
