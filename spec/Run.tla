-------------------------------- MODULE Run --------------------------------
(***************************************************************************)
(* A run from the command line: the options it accepts, the steps it       *)
(* takes, the frames it saves.  A run is described by                      *)
(*   dt    << numerator, denominator >> of the step size, at most one each *)
(*   text  the digits after the point in the scene's step size, -1 if the  *)
(*         step size is written as a fraction                              *)
(*   end   the time the scene ends at, or "never"                          *)
(*   opts  the options given, [k |-> letter, w |-> what was written:       *)
(*         "num", "word", "none", v |-> the number]                        *)
(*   scenes  how many scene files were named                               *)
(*   scene   "good", "bad" (not a legal scene), "missing", or "timeless":  *)
(*           legal, but without an integrator, so that no time passes      *)
(***************************************************************************)
EXTENDS Num, Sequences, FiniteSets

\* the value given last to an option, or d
RECURSIVE LastOf(_, _, _)
LastOf(opts, k, d) == IF opts = << >> THEN d
                      ELSE IF opts[Len(opts)].k = k THEN opts[Len(opts)] ELSE LastOf(SubSeq(opts, 1, Len(opts) - 1), k, d)
NoOpt == [k |-> "", w |-> "none", v |-> "0"]
Given(r, k) == LastOf(r.opts, k, NoOpt).k = k
Val(r, k) == LastOf(r.opts, k, NoOpt).v
OptOk(o) == CASE o.k = "h" -> TRUE
              [] o.k = "s" -> o.w = "num" /\ (REq(o.v, 0) \/ REq(o.v, 1))
              [] o.k = "e" -> o.w = "num" /\ RGt(o.v, 0)
              [] o.k = "f" -> o.w = "num"
              [] OTHER -> FALSE
OptsOk(r) == \A i \in 1..Len(r.opts) : OptOk(r.opts[i])

Hz(r) == IF Given(r, "f") THEN RToInt(Val(r, "f")) ELSE 0
\* steps between two saves: 1 / (dt * hz) when that is a whole number
SavesFit(r) == Hz(r) = 0 \/ r.dt[2] % (r.dt[1] * Hz(r)) = 0
Every(r) == IF Hz(r) = 0 THEN 1 ELSE r.dt[2] \div (r.dt[1] * Hz(r))
EndTime(r) == IF Given(r, "e") THEN Val(r, "e") ELSE r.end
Accepts(r) == OptsOk(r) /\ r.scenes = 1 /\ r.scene = "good" /\ SavesFit(r)
\* the kind of answer the command line deserves
Answer(r) == IF ~OptsOk(r) THEN "refuse" ELSE IF Given(r, "h") THEN "help" ELSE IF Accepts(r) THEN "run" ELSE "refuse"

TimeAt(r, k) == RDiv(k * r.dt[1], r.dt[2])
Slack == "1e-9"
\* the run ends at the first step whose time is not before the end; when the end falls on a step, the
\* comparison is decided by rounding
MayEnd(r, k)  == EndTime(r) # "never" /\ RGe(TimeAt(r, k), RMul(EndTime(r), RSub(1, Slack)))
MustEnd(r, k) == EndTime(r) # "never" /\ RGe(TimeAt(r, k), RMul(EndTime(r), RAdd(1, Slack)))

Saves(r) == Given(r, "s")
OneFile(r) == Saves(r) /\ REq(Val(r, "s"), 0)
SavedAt(r, k) == k % Every(r) = 0
FrameOf(r, k) == k \div Every(r)
\* digits in which the time is told
Digits(r) == IF r.text >= 0 THEN r.text ELSE 6
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN RMul(1, 1) ELSE RMul(10, Pow10(n - 1))
=============================================================================
