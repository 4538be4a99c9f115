----------------------------- MODULE ResumeTrace -----------------------------
(***************************************************************************)
(* Runs recorded from the command-line simulators, cut short and resumed.  *)
(* `full` tells what an uninterrupted run saves: c[f + 1] is the content   *)
(* of frame f, n[f + 1] the file it goes to.  Each `session` starts from   *)
(* the scene (from = -1) or from the snapshot of frame `from`, in a folder *)
(* holding `disk`; it may be cut short at a point of the save of frame     *)
(* `at`, or have that operation fail.                                      *)
(***************************************************************************)
EXTENDS TraceBase, FiniteSets
VARIABLES full, disk
Cut == 77                                        \* exit status of a process the harness ended
\* the folder after frames a..b were put in place
RECURSIVE Put(_, _, _)
Put(d, a, b) == IF a > b THEN d
                ELSE Put([n \in DOMAIN d \cup { full.n[a + 1] } |-> IF n = full.n[a + 1] THEN full.c[a + 1] ELSE d[n]], a + 1, b)
Last == Len(full.c) - 1
Start(e) == IF e.from < 0 THEN 0 ELSE e.from
Fails(e) == e.point \in { "fail-open", "fail-write", "fail-rename" }
SessionOk(e, d0, d1) ==
  LET whole == e.exit = 0 /\ d1 = Put(d0, Start(e), Last)
      before == d1 = Put(d0, Start(e), e.at - 1)
      after == d1 = Put(d0, Start(e), e.at) IN
  CASE e.point = "none" -> whole
    [] e.point \in { "open", "torn" } -> e.exit = Cut /\ before
    [] e.point = "close" -> e.exit = Cut /\ (before \/ after)
    \* there need not be a renaming step
    [] e.point = "rename" -> whole \/ (e.exit = Cut /\ (before \/ after))
    [] e.point = "fail-rename" -> whole \/ (e.exit \in 1..76 /\ before)
    [] Fails(e) -> e.exit \in 1..76 /\ before
AsMap(s) == [n \in { s[i][1] : i \in 1..Len(s) } |-> LET i == CHOOSE j \in 1..Len(s) : s[j][1] = n IN s[i][2]]
Init == l = 1 /\ full = [c |-> << >>, n |-> << >>] /\ disk = AsMap(<< >>)
Full == /\ IsEvent("full") /\ Holds(Ev.exit = 0 /\ Len(Ev.c) = Len(Ev.n) /\ Len(Ev.c) > 0)
        /\ full' = [c |-> Ev.c, n |-> Ev.n] /\ disk' = AsMap(<< >>)
Session == /\ IsEvent("session")
           /\ Holds(Ev.from < 0 \/ (full.n[Ev.from + 1] \in DOMAIN disk /\ disk[full.n[Ev.from + 1]] = full.c[Ev.from + 1]))
           /\ Holds(SessionOk(Ev, disk, AsMap(Ev.disk)))
           /\ disk' = AsMap(Ev.disk) /\ UNCHANGED full
\* resumed in an empty folder: the frames from there on, and nothing else
Away == /\ IsEvent("away")
        /\ Holds(Ev.exit = 0 /\ AsMap(Ev.disk) = Put(AsMap(<< >>), Ev.from, Last))
        /\ UNCHANGED << full, disk >>
Next == l' = l + 1 /\ (Full \/ Session \/ Away)
=============================================================================
