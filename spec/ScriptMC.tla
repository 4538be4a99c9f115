------------------------------ MODULE ScriptMC ------------------------------
(***************************************************************************)
(* Scripts that add and take away bodies and shapes, in any order.  Every  *)
(* body and shape carries a mark of its own, given at birth and never seen *)
(* by the script: born[b] is the mark of the shape body b was made with.   *)
(***************************************************************************)
EXTENDS Scripts, TLC
CONSTANTS MaxBodies, MaxShapes, MaxMarks
VARIABLES shapes, bodies, geo, born, mark
vars == << shapes, bodies, geo, born, mark >>
Init == shapes = << >> /\ bodies = << >> /\ geo = << >> /\ born = << >> /\ mark = 1
Fresh == mark <= MaxMarks /\ mark' = mark + 1
AddShape == Len(shapes) < MaxShapes /\ Fresh /\ shapes' = Append(shapes, mark) /\ UNCHANGED << bodies, geo, born >>
AddBody == /\ Len(bodies) < MaxBodies /\ Fresh
           /\ \E g \in 0..(Len(shapes) - 1) : geo' = Append(geo, g) /\ born' = Append(born, shapes[g + 1])
           /\ bodies' = Append(bodies, mark) /\ UNCHANGED shapes
DropBodies == \E gone \in (SUBSET (0..(Len(bodies) - 1))) \ {{}} :
  LET kept == Kept(Len(bodies), gone) IN
  /\ bodies' = Gathered(bodies, kept, 1) /\ geo' = Gathered(geo, kept, 1) /\ born' = Gathered(born, kept, 1) /\ UNCHANGED << shapes, mark >>
DropShapes == \E gone \in (SUBSET (0..(Len(shapes) - 1))) \ {{}} :
  /\ \A i \in gone : ~ Used(geo, i)
  /\ shapes' = Gathered(shapes, Kept(Len(shapes), gone), 1) /\ geo' = [b \in 1..Len(geo) |-> Shifted(geo[b], gone)]
  /\ UNCHANGED << bodies, born, mark >>
Next == AddShape \/ AddBody \/ DropBodies \/ DropShapes
Spec == Init /\ [][Next]_vars
\* every body refers to a shape there is, and to the one it was made with
Referred == \A b \in 1..Len(geo) : geo[b] \in 0..(Len(shapes) - 1) /\ shapes[geo[b] + 1] = born[b]
Aligned == Len(bodies) = Len(geo) /\ Len(geo) = Len(born)
\* age order is kept: nothing is ever reordered
InOrder(s) == \A i, j \in 1..Len(s) : i < j => s[i] < s[j]
Ordered == InOrder(bodies) /\ InOrder(shapes)
\* a removal removes exactly what was named, and removing twice is removing the union
Exact == [][Len(bodies') < Len(bodies) => \E gone \in SUBSET (0..(Len(bodies) - 1)) :
              {bodies'[i] : i \in 1..Len(bodies')} = {bodies[i + 1] : i \in (0..(Len(bodies) - 1)) \ gone} /\ Cardinality(gone) = Len(bodies) - Len(bodies')]_vars
Twice == \A a, b \in SUBSET (0..(Len(bodies) - 1)) : a \cap b = {} =>
           Gathered(Gathered(bodies, Kept(Len(bodies), a), 1), Kept(Len(bodies) - Cardinality(a), {Shifted(i, a) : i \in b}), 1) = Gathered(bodies, Kept(Len(bodies), a \cup b), 1)
=============================================================================
