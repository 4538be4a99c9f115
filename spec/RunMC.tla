------------------------------- MODULE RunMC -------------------------------
(***************************************************************************)
(* Runs that save snapshots, are cut short at any moment, and are resumed  *)
(* from any snapshot left on disk.  A run of K steps saves every `every`   *)
(* steps, into one file that is overwritten or into one file per frame.    *)
(* A snapshot holds the whole state of the run: the step it was taken at   *)
(* and the number of frames saved before it.  Saving happens in two moves, *)
(* a file being written aside and put in its place; a run cut short in     *)
(* between leaves the places as they were.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ks, Everys, Modes, MaxCuts
VARIABLES cfg, pc, it, frame, disk, cuts, hist
vars == << cfg, pc, it, frame, disk, cuts, hist >>
None == [it |-> 0 - 1, frame |-> 0 - 1]
Frames(c) == 0..(c.K \div c.every)
Places(c) == IF c.mode = "one" THEN { 0 } ELSE Frames(c)
Place(f) == IF cfg.mode = "one" THEN 0 ELSE f
Init == /\ \E k \in Ks, e \in Everys, m \in Modes : cfg = [K |-> k, every |-> e, mode |-> m]
        /\ pc = "off" /\ it = 0 /\ frame = 0 /\ cuts = 0 /\ hist = << >>
        /\ disk = [p \in Places(cfg) |-> None]
Begin == /\ pc = "off" /\ hist = << >>
         /\ pc' = "arrived" /\ it' = 0 /\ frame' = 0
         /\ hist' = << [from |-> 0 - 1, at |-> 0 - 1, point |-> "none"] >>
         /\ UNCHANGED << cfg, disk, cuts >>
\* nothing was saved yet: start over
Restart == /\ pc = "off" /\ hist # << >> /\ \A p \in Places(cfg) : disk[p] = None
           /\ pc' = "arrived" /\ it' = 0 /\ frame' = 0
           /\ hist' = Append(hist, [from |-> 0 - 1, at |-> 0 - 1, point |-> "none"])
           /\ UNCHANGED << cfg, disk, cuts >>
Resume == /\ pc = "off" /\ hist # << >>
          /\ \E p \in Places(cfg) :
               /\ disk[p] # None
               /\ pc' = "arrived" /\ it' = disk[p].it /\ frame' = disk[p].frame
               /\ hist' = Append(hist, [from |-> disk[p].frame, at |-> 0 - 1, point |-> "none"])
          /\ UNCHANGED << cfg, disk, cuts >>
\* at a step whose frame is saved the world is written aside first
Write == /\ pc = "arrived" /\ it % cfg.every = 0 /\ pc' = "written" /\ UNCHANGED << cfg, it, frame, disk, cuts, hist >>
Pass == /\ pc = "arrived" /\ it % cfg.every # 0 /\ pc' = "ready" /\ UNCHANGED << cfg, it, frame, disk, cuts, hist >>
Put == /\ pc = "written" /\ pc' = "ready"
       /\ disk' = [disk EXCEPT ![Place(frame)] = [it |-> it, frame |-> frame]]
       /\ frame' = frame + 1
       /\ UNCHANGED << cfg, it, cuts, hist >>
Step == /\ pc = "ready" /\ it < cfg.K /\ it' = it + 1 /\ pc' = "arrived" /\ UNCHANGED << cfg, frame, disk, cuts, hist >>
End == /\ pc = "ready" /\ it >= cfg.K /\ pc' = "done" /\ UNCHANGED << cfg, it, frame, disk, cuts, hist >>
Cut(point, at) == /\ cuts < MaxCuts /\ cuts' = cuts + 1 /\ pc' = "off"
                  /\ hist' = [hist EXCEPT ![Len(hist)].at = at, ![Len(hist)].point = point]
                  /\ UNCHANGED << cfg, it, frame, disk >>
CutOpen == pc = "arrived" /\ it % cfg.every = 0 /\ Cut("open", frame)
CutTorn == pc = "written" /\ Cut("torn", frame)
CutClose == pc = "written" /\ Cut("close", frame)
CutRename == pc = "written" /\ Cut("rename", frame)
Next == Begin \/ Restart \/ Resume \/ Write \/ Pass \/ Put \/ Step \/ End \/ CutOpen \/ CutTorn \/ CutClose \/ CutRename
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin) /\ WF_vars(Restart) /\ WF_vars(Resume) /\ WF_vars(Write) /\ WF_vars(Pass) /\ WF_vars(Put) /\ WF_vars(Step) /\ WF_vars(End)

\* every snapshot is the one an uninterrupted run writes
Faithful == \A p \in Places(cfg) : disk[p] # None => /\ disk[p].it = disk[p].frame * cfg.every
                                                      /\ (cfg.mode = "each" => disk[p].frame = p)
\* once a frame was saved there is always something to resume from
NeverLost == (\E f \in Frames(cfg) : frame > f) => \E p \in Places(cfg) : disk[p] # None
\* in the end the disk holds what an uninterrupted run leaves
Whole == pc = "done" => \A p \in Places(cfg) : disk[p].frame = (IF cfg.mode = "one" THEN cfg.K \div cfg.every ELSE p)
Ends == <>(pc = "done")
Emit == pc = "done" => PrintT("@@B " \o ToJson([K |-> cfg.K, every |-> cfg.every, mode |-> cfg.mode, sessions |-> hist]))
=============================================================================
