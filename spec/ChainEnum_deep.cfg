CONSTANTS MaxN = 6  V = {0, 1, 3}
INIT Init
NEXT Next
INVARIANTS Emit
