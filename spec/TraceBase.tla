----------------------------- MODULE TraceBase -----------------------------
(* What every trace specification shares: the recorded events and the test  *)
(* that all of them were explained.                                         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLE l                                     \* next event to explain
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e
Holds(p) == p = TRUE                           \* judged as a value: TLC must not branch on it
Accepted ==
  IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
  ELSE Print(<<"REJECTED", TLCGet("stats").diameter>>, FALSE)
=============================================================================
