------------------------------- MODULE Broad -------------------------------
(* Broad phase of collision detection: axis-aligned boxes [lo, hi] and the  *)
(* pairs of them that share at least a boundary point.                      *)
EXTENDS Num, FiniteSets
Overlap(a, b) == \A k \in 1..Len(a.lo) : RLe(a.lo[k], b.hi[k]) /\ RLe(b.lo[k], a.hi[k])
Pairs(bs) == {<< i, j >> \in (1..Len(bs)) \X (1..Len(bs)) : i < j /\ Overlap(bs[i], bs[j])}
=============================================================================
