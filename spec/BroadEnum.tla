----------------------------- MODULE BroadEnum -----------------------------
(* Every multiset of at most three boxes with corners on a small lattice,   *)
(* and the grid that finds their overlaps: boxes are put into the cells they*)
(* meet, cells as wide as the mean of the larger extent.  Two boxes that    *)
(* share a point always share a cell (Found).                               *)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets
CONSTANTS Hi, Most
VARIABLES bs, done
Iv == {p \in (0..Hi) \X (0..Hi) : p[1] < p[2]}
Bx == {<< x[1], x[2], y[1], y[2] >> : x \in Iv, y \in Iv}
Ord(b) == ((b[1] * (Hi + 1) + b[2]) * (Hi + 1) + b[3]) * (Hi + 1) + b[4]
Init == bs = << >> /\ done = FALSE
Add  == /\ done = FALSE /\ Len(bs) < Most
        /\ \E b \in Bx : (IF bs = << >> THEN TRUE ELSE Ord(bs[Len(bs)]) <= Ord(b)) /\ bs' = Append(bs, b)
        /\ UNCHANGED done
Stop == done = FALSE /\ bs # << >> /\ done' = TRUE /\ bs' = bs
Next == Add \/ Stop
Meet(a, b) == a[1] <= b[2] /\ b[1] <= a[2] /\ a[3] <= b[4] /\ b[3] <= a[4]
Sum(f) == LET S[k \in 0..Len(bs)] == IF k = 0 THEN 0 ELSE S[k-1] + f[k] IN S[Len(bs)]
Max(a, b) == IF a < b THEN b ELSE a
\* the cell width is W / n; coordinates are scaled by n so that a coordinate c lies in cell (c * n) \div W
W == Max(Sum([k \in 1..Len(bs) |-> bs[k][2] - bs[k][1]]), Sum([k \in 1..Len(bs) |-> bs[k][4] - bs[k][3]]))
Cell(c) == (c * Len(bs)) \div W
Cells(b) == {<< i, j >> : i \in Cell(b[1])..Cell(b[2]), j \in Cell(b[3])..Cell(b[4])}
Found == done => \A i, j \in 1..Len(bs) : Meet(bs[i], bs[j]) => Cells(bs[i]) \cap Cells(bs[j]) # {}
Emit == done => PrintT("@@B " \o ToJson(bs))
=============================================================================
