---------------------------- MODULE ScriptTrace -----------------------------
(* Recorded runs of scripts that make random calls: which callbacks were      *)
(* made and when, what each call was told, what it left behind, and which     *)
(* calls ended the program.                                                   *)
EXTENDS TraceBase, Script
VARIABLE w, has, c, todo, cur
Keep(cb) == SelectSeq(cb, LAMBDA s : s \in has)
None == [it |-> 0, dt |-> "0x0p+0", it0 |-> 0, con |-> << >>, x |-> << >>]
Init == l = 1 /\ w = [n |-> 0] /\ has = {} /\ c = None /\ todo = << >> /\ cur = ""
World == IsEvent("world") /\ w' = Ev.w /\ has' = Named(Ev.has) /\ c' = None /\ todo' = << >> /\ cur' = "" /\ l' = l + 1
\* a call at the edge, made in a process of its own: accepted, and the script goes on; or refused, and nothing after it runs
Judged == IF Acceptable(w, Ev.nc, Ev.f, Ev.k, Ev.x, Ev.how) THEN Ev.code = 0 /\ Ev.on ELSE Ev.code = 1 /\ ~ Ev.on
Edge == IsEvent("edge") /\ Holds(Judged) /\ l' = l + 1 /\ UNCHANGED << w, has, c, todo, cur >>
Ask == /\ IsEvent("ask") /\ todo = << >> /\ l' = l + 1
       /\ todo' = Keep(Ev.cbs) /\ cur' = "" /\ c' = [None EXCEPT !.it = Ev.it, !.dt = Ev.dt, !.it0 = Ev.it0]
       /\ UNCHANGED << w, has >>
Coef == /\ IsEvent("coef") /\ todo = << >> /\ l' = l + 1
        /\ todo' = Keep(<< Ev.cb >>) /\ cur' = "" /\ c' = [None EXCEPT !.con = Ev.con, !.x = Ev.x]
        /\ UNCHANGED << w, has >>
Enter == /\ IsEvent("enter") /\ todo # << >> /\ Ev.cb = Head(todo) /\ l' = l + 1
         /\ cur' = Ev.cb /\ todo' = Tail(todo) /\ UNCHANGED << w, has, c >>
Told == LET a == Answer(w, c, Ev.f, Ev.k) IN a.rk = Ev.rk /\ a.rx = Ev.rx /\ a.rs = Ev.rs
Call == /\ IsEvent("call") /\ cur # "" /\ Holds(Told) /\ l' = l + 1
        /\ w' = TLCEval(After(w, Ev.f, Ev.k, Ev.x))
        /\ c' = IF Ev.f \in {"mu[]", "cor[]"} THEN [c EXCEPT !.x = With(@, Ev.k[1], Ev.x[1])]
                ELSE IF Ev.f = "setInitialIterate" THEN [c EXCEPT !.it0 = Ev.k[1]] ELSE c
        /\ UNCHANGED << has, todo, cur >>
Afterwards == /\ IsEvent("after") /\ todo = << >> /\ Ev.x = c.x /\ l' = l + 1
              /\ cur' = "" /\ c' = None /\ UNCHANGED << w, has, todo >>
End == /\ IsEvent("end") /\ todo = << >> /\ Holds(SameAs(w, Ev.w)) /\ Ev.it0 = c.it0 /\ l' = l + 1
       /\ w' = Ev.w /\ cur' = "" /\ c' = None /\ UNCHANGED << has, todo >>
Next == World \/ Edge \/ Ask \/ Coef \/ Enter \/ Call \/ Afterwards \/ End
=============================================================================
