CONSTANTS MaxN = 4  V = {0, 1, 2, 3}
SPECIFICATION Spec
INVARIANTS SameVelocities DoneIsSorted
PROPERTIES Shrinks Ends
