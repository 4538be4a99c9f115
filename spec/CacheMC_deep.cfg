INIT Init
NEXT Next
INVARIANTS Exact Reads Emit
CHECK_DEADLOCK FALSE
CONSTANT Depth = 7
