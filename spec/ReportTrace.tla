---------------------------- MODULE ReportTrace ----------------------------
(* Recorded reports of real simulations. *)
EXTENDS TraceBase, Report
Tol == "1e-10"
Init == l = 1
U(ev) == RSumSeq([h \in 1..Len(ev.forces) |-> Potential(ev, ev.q, ev.forces[h])])
True3(ev) ==
  /\ VClose(ev.mid, VScale("0.5", VAdd(ev.lo, ev.hi)), Tol) /\ Close(ev.rad, VNorm(VSub(ev.hi, ev.mid)), Tol)
  /\ Len(ev.Z) = Len(ev.Z0)
  /\ \A k \in 1..Len(ev.Z) : LET i == (((k - 1) \div 3) % ev.n) + 1 IN IF ev.fixed[i] THEN RSign(ev.Z[k]) = 0 ELSE ev.Z[k] = ev.Z0[k]
True(ev) ==
  /\ Close(ev.K, Kinetic(ev), Tol) /\ Close(ev.U, U(ev), Tol) /\ Close(ev.E, RAdd(ev.K, ev.U), Tol)
  /\ VClose(ev.p, Momentum(ev, ev.v), Tol) /\ VClose(ev.L, Angular(ev, ev.v), Tol)
  /\ VClose(ev.p2, Momentum(ev, ev.v2), Tol) /\ VClose(ev.L2, Angular(ev, ev.v2), Tol)
  /\ VClose(ev.F, Forces(ev, ev.q2), "1e-8")
  /\ LET B == TLCEval(Hull(ev)) IN VClose(ev.lo, B.lo, Tol) /\ VClose(ev.hi, B.hi, Tol)
  /\ (ev.lay = "r3" => True3(ev))
Report1 == IsEvent("report") /\ Holds(True(Ev))
Next == l' = l + 1 /\ Report1
=============================================================================
