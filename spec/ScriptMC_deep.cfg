SPECIFICATION Spec
CONSTANTS
  MaxBodies = 4
  MaxShapes = 4
  MaxMarks = 9
INVARIANT Referred
INVARIANT Aligned
INVARIANT Ordered
INVARIANT Twice
PROPERTY Exact
CHECK_DEADLOCK FALSE
