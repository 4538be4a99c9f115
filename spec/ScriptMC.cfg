SPECIFICATION Spec
CONSTANTS
  MaxBodies = 3
  MaxShapes = 3
  MaxMarks = 7
INVARIANT Referred
INVARIANT Aligned
INVARIANT Ordered
INVARIANT Twice
PROPERTY Exact
CHECK_DEADLOCK FALSE
