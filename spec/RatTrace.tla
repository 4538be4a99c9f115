------------------------------ MODULE RatTrace ------------------------------
(* Histories of operations on one real rational, and parsing.               *)
EXTENDS TraceBase, Rat
VARIABLE r
Init == l = 1 /\ r = << "0", "1" >>
New == IsEvent("new") /\ r' = Norm(Ev.n, Ev.d) /\ Same(<< Ev.rn, Ev.rd >>, r')
Op  == /\ IsEvent("op")
       /\ Enabled(Ev.op, r, << Ev.n, Ev.d >>)
       /\ r' = Apply(Ev.op, r, << Ev.n, Ev.d >>)
       /\ Same(<< Ev.rn, Ev.rd >>, r')
       /\ Ev.pos = (RSign(r'[1]) > 0)
       /\ Ev.nonneg = (RSign(r'[1]) >= 0)
       /\ Ev.isint = REq(r'[2], 1)
       /\ REq(Ev.dbl, RRound64(RDiv(r'[1], r'[2])))
       /\ LET o == Norm(Ev.cn, Ev.cd) IN
            /\ Ev.eq = Same(r', o) /\ Ev.ne = ~Ev.eq
            /\ Ev.eqint = Same(r', Lift(Ev.cn)) /\ Ev.inteq = Ev.eqint
\* well-formed text denotes exactly n/d; anything with two slashes, two periods or both is refused
Parse == /\ IsEvent("parse")
         /\ Ev.ok
         /\ Same(<< Ev.rn, Ev.rd >>, Norm(Ev.n, Ev.d))
         /\ UNCHANGED r
Refuse == IsEvent("refuse") /\ ~Ev.ok /\ UNCHANGED r
GcdEv == IsEvent("gcd") /\ REq(RAbs(Ev.out), Gcd(Ev.n, Ev.d)) /\ UNCHANGED r
Next == /\ New \/ Op \/ Parse \/ Refuse \/ GcdEv
        /\ l' = l + 1
=============================================================================
