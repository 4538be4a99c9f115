----------------------------- MODULE PartsTrace -----------------------------
(***************************************************************************)
(* Solvers, maps and integrators written to a stream and read back.  A     *)
(* part is described by the parameters it was made from (p): the reader    *)
(* reports the same kind of part, consumes exactly what was written, and   *)
(* the loaded part writes the same bytes again and answers like the        *)
(* original and like its copies.  Parts with different parameters are      *)
(* written differently, equal ones alike: the stream holds them all.       *)
(***************************************************************************)
EXTENDS TraceBase
Faithful(ev) ==
  /\ ev.code = 0
  /\ ev.r.back = ev.r.name /\ ev.r.rest /\ ev.r.again
  /\ ev.r.alike = (ev.p = ev.p2)
  /\ \A k \in 1..Len(ev.r.twins) : ev.r.twins[k].alike = (ev.p = ev.r.twins[k].p)   \* nearly the same part
  /\ ("asbytes" \in DOMAIN ev.r => ev.r.asbytes)
  /\ ("was" \in DOMAIN ev.r => ev.r.now = ev.r.was /\ ev.r.copy = ev.r.was)
Init == l = 1
Part == IsEvent("part") /\ Holds(Faithful(Ev))
Next == l' = l + 1 /\ Part
=============================================================================
