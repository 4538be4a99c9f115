-------------------------------- MODULE RatMC --------------------------------
EXTENDS Rat, TLC, Json
CONSTANTS Nums, Dens, Bound, Depth
SmallNums == {-3, 0, 1, 4}
SmallDens == {-2, 1, 3}
WideNums == {-9, -6, -4, -1, 0, 1, 2, 5, 8, 9}
WideDens == {-8, -3, -1, 1, 2, 6, 7}
VARIABLES r, hist
Operand == {<< n, d >> : n \in Nums, d \in Dens}
Init == r = << "0", "1" >> /\ hist = << >>
StepFrom(O, X) ==
        \E op \in O, x \in X :
          /\ Enabled(op, r, x)
          /\ LET q == Apply(op, r, x) IN
               /\ RLe(RAbs(q[1]), Bound) /\ RLe(q[2], Bound)
               /\ r' = q
          /\ hist' = Append(hist, << op, x[1], x[2] >>)
Step == StepFrom(Ops, Operand)
RandomStep == StepFrom({RandomElement(Ops)}, {RandomElement(Operand)})
Finish == /\ Len(hist) = Depth                       \* hand the finished history to the driver
          /\ PrintT("@@B " \o ToJson(hist))
          /\ hist' = Append(hist, << "end", 0, 0 >>) /\ UNCHANGED r
Next == (Len(hist) < Depth /\ (RandomStep \/ RandomStep \/ RandomStep)) \/ Finish
View == r
Normal == IsNormal(r)
\* field laws at every reachable value
Laws == \A x \in Operand :
          LET q == Norm(x[1], x[2]) IN
            /\ IsNormal(q)
            /\ Same(Plus(r, q), Plus(q, r)) /\ Same(Minus(Plus(r, q), q), r)
            /\ Same(Times(r, q), Times(q, r))
            /\ RSign(q[1]) # 0 => Same(Over(Times(r, q), q), r)
            /\ Same(Times(r, Plus(q, r)), Plus(Times(r, q), Times(r, r)))
=============================================================================
