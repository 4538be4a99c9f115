----------------------------- MODULE TextTrace -----------------------------
(* Calls of the real text functions: argument, result.                      *)
EXTENDS TraceBase, Text, Num
Init == l = 1
Ok(x) ==
  CASE x.e = "tokenize"   -> x.out = Tokenize(x.s, x.c) /\ x.out2 = x.pre \o Tokenize(x.s, x.c)
    [] x.e = "split"      -> x.left = SplitLeft(x.s, x.c) /\ x.right = SplitRight(x.s, x.c)
    [] x.e = "numright"   -> x.out = NumRight(x.s, x.c)
    [] x.e = "trim"       -> x.f = TrimFront(x.s) /\ x.b = TrimBack(x.s) /\ x.t = Trim(x.s)
    [] x.e = "squeeze"    -> x.out = Squeeze(x.s)
    [] x.e = "trimright"  -> x.out = TrimRight(x.s, x.c)
    [] x.e = "pad"        -> x.out = Pad(x.s, x.w)
    [] x.e = "tostring"   -> x.out = Decimal(x.n) /\ x.digits = Len(Decimal(x.n))
    \* a decimal literal: the nearest double
    [] x.e = "scalar"     -> x.ok /\ (IF x.lit = "inf" THEN x.val = "inf" ELSE IF x.lit = "-inf" THEN x.val = "-inf"
                                      ELSE REq(x.val, RRound64(x.lit)))
    [] x.e = "notscalar"  -> ~x.ok
    [] x.e = "integer"    -> x.ok /\ x.val = x.n
    [] x.e = "list"       -> x.ok = (Len(x.lits) = x.want) /\
                             (x.ok => /\ Len(x.vals) = x.want
                                      /\ \A i \in 1..x.want :
                                           IF x.lits[i] = "inf" THEN x.vals[i] = "inf"
                                           ELSE IF x.lits[i] = "-inf" THEN x.vals[i] = "-inf"
                                           ELSE REq(x.vals[i], RRound64(x.lits[i])))
    [] x.e = "badlist"    -> ~x.ok
Next == /\ l <= Len(Trace)
        /\ Ok(Ev)
        /\ l' = l + 1
=============================================================================
