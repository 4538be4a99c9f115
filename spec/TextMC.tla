------------------------------- MODULE TextMC -------------------------------
(* Every string over Alphabet up to MaxLen: checks the laws and hands each  *)
(* string to the driver, which runs the real functions on it.               *)
EXTENDS Text, TLC, Json
CONSTANTS MaxLen, Alphabet, Delims
VARIABLE s
Init == s = << >>
Grow == /\ Len(s) < MaxLen
        /\ \E c \in Alphabet : s' = Append(s, c)
Next == Grow
Inv == \A c \in Delims : Laws(s, c)
Emit == PrintT("@@B " \o ToJson(s))
=============================================================================
