------------------------------ MODULE RunTrace ------------------------------
(***************************************************************************)
(* One command line after another, with what the process did: the          *)
(* callbacks of the scripting interface, the snapshots it put in place,    *)
(* what it printed and how it ended.                                       *)
(***************************************************************************)
EXTENDS TraceBase, Run
VARIABLES run, pc, it, width
vars == << run, pc, it, width >>
Idle == [none |-> TRUE]
Init == l = 1 /\ run = Idle /\ pc = "idle" /\ it = 0 /\ width = 0
Command == /\ IsEvent("run") /\ pc = "idle" /\ run' = Ev /\ it' = 0 /\ width' = 0
           /\ pc' = (IF Answer(Ev) = "run" THEN "load" ELSE "answer")
Loaded == /\ IsEvent("startSim") /\ pc = "load" /\ Holds(Ev.n = run.n) /\ pc' = "arrived" /\ UNCHANGED << run, it, width >>
DueSave == Saves(run) /\ SavedAt(run, it)
NameOk == IF OneFile(run) THEN Ev.name = "serial.bin" ELSE Ev.base = "serial" /\ Ev.num = FrameOf(run, it) /\ (width = 0 \/ EndTime(run) = "never" \/ Ev.w = width)
Save == /\ IsEvent("save") /\ pc = "arrived" /\ Holds(DueSave) /\ Holds(NameOk)
        /\ width' = (IF OneFile(run) THEN 0 ELSE Ev.w) /\ pc' = "ready" /\ UNCHANGED << run, it >>
MayGo == pc = "ready" \/ (pc = "arrived" /\ ~DueSave)
StepBegin == /\ IsEvent("stepStart") /\ Holds(MayGo) /\ Holds(~MustEnd(run, it)) /\ Holds(Ev.it = it + 1 /\ Ev.dt = run.dt)
             /\ pc' = "step" /\ it' = it + 1 /\ UNCHANGED << run, width >>
StepEnd == /\ IsEvent("stepEnd") /\ pc = "step" /\ Holds(Ev.it = it /\ Ev.dt = run.dt) /\ pc' = "arrived" /\ UNCHANGED << run, it, width >>
Over == /\ IsEvent("endSim") /\ Holds(MayGo) /\ Holds(MayEnd(run, it)) /\ Holds(Ev.n = run.n) /\ pc' = "over" /\ UNCHANGED << run, it, width >>
\* what was printed about frame f
LineOk(f, s) == /\ s.dig = Digits(run)
                /\ RLe(RAbs(RSub(s.t, TimeAt(run, f * Every(run)))), RDiv("0.500001", Pow10(Digits(run))))
                /\ IF OneFile(run) THEN s.name = "serial.bin" ELSE s.num = f
FileOk(s) == LET f == IF OneFile(run) THEN FrameOf(run, it) ELSE s.num IN f * Every(run) \in { s.holds[i] : i \in 1..Len(s.holds) }
Leave == /\ IsEvent("exit")
         /\ Holds(CASE pc = "over" -> /\ Ev.code = 0 /\ Ev.bodies = run.bodies
                                      /\ Close(Ev.done, TimeAt(run, it), "1e-5")
                                      /\ Len(Ev.lines) = (IF Saves(run) THEN FrameOf(run, it) + 1 ELSE 0)
                                      /\ \A i \in 1..Len(Ev.lines) : LineOk(i - 1, Ev.lines[i])
                                      /\ Len(Ev.files) = (IF ~Saves(run) THEN 0 ELSE IF OneFile(run) THEN 1 ELSE FrameOf(run, it) + 1)
                                      /\ \A i \in 1..Len(Ev.files) : FileOk(Ev.files[i])
                    [] pc = "answer" /\ Answer(run) = "help" -> Ev.code = 0 /\ Ev.usage /\ Len(Ev.files) = 0
                    [] pc = "answer" /\ Answer(run) = "refuse" -> Ev.code \in 1..125 /\ Len(Ev.files) = 0 /\ Ev.said
                    [] OTHER -> FALSE)
         /\ pc' = "idle" /\ run' = Idle /\ UNCHANGED << it, width >>
\* a resume option that names no snapshot of this simulator
Refused == /\ IsEvent("badresume") /\ pc = "idle" /\ Holds(Ev.code \in 1..125 /\ Ev.said /\ Len(Ev.files) = 0) /\ UNCHANGED vars
\* a scene refused while it is read makes no callback; one refused for its save rate, or for
\* lacking an integrator, has been read
LoadedOnly == /\ IsEvent("startSim") /\ pc = "answer" /\ Holds(OptsOk(run) /\ ~Given(run, "h") /\ run.scenes = 1 /\ (run.scene = "timeless" \/ (run.scene = "good" /\ ~SavesFit(run)))) /\ UNCHANGED vars
Next == l' = l + 1 /\ (Command \/ Loaded \/ LoadedOnly \/ Save \/ StepBegin \/ StepEnd \/ Over \/ Leave \/ Refused)
=============================================================================
