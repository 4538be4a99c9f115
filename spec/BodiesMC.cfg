INIT Init
NEXT Next
INVARIANTS Shaped Ordered Emit
PROPERTY Renumbered
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 4 MaxBodies = 4 MaxGeos = 4
