CONSTANTS MaxN = 6  V = {0, 1, 3}
SPECIFICATION Spec
INVARIANTS SameVelocities DoneIsSorted
PROPERTIES Shrinks Ends
