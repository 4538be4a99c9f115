----------------------------- MODULE ImpactTrace -----------------------------
(* Answers of the real impact operators. *)
EXTENDS TraceBase, Impact
Init == l = 1
Judge == CASE Ev.e = "lcp" -> Lcp(Ev, Ev.a, Ev.tol, Ev.max)
           [] Ev.e = "gr" -> Gr(Ev)
           [] Ev.e = "grlong" -> NonNeg(Ev.a) /\ Violated(Ev, After(Ev.Minv, Ev.N, Ev.v0F, Ev.a), RAdd(Ev.vtol, "1e-9")) = {}
           [] Ev.e = "grr" -> Grr(Ev)
           [] Ev.e = "gs" -> Gs(Ev)
           [] Ev.e = "one" -> (Ev.code = 0) = Uniform(Ev.cor)
           [] Ev.e = "term" -> Close(Ev.out, Term(Ev.k, Ev.x, Ev.y, Ev.c), "1e-12")
           [] Ev.e = "chain" ->     \* equal elastic balls in a row leave sorted, with the velocities they came with
                LET n == Len(Ev.v0) \div 2
                    Cnt(v, x) == Len(SelectSeq([i \in 1..n |-> v[2*i-1]], LAMBDA y : REq(x, y))) IN
                /\ \A i \in 1..(n - 1) : RLe(Ev.v1[2*i-1], Ev.v1[2*i+1])
                /\ \A i \in 1..n : REq(Ev.v1[2*i], 0) /\ Cnt(Ev.v0, Ev.v0[2*i-1]) = Cnt(Ev.v1, Ev.v0[2*i-1])
Next == l <= Len(Trace) /\ Holds(Judge) /\ l' = l + 1
=============================================================================
