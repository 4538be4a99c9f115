CONSTANTS MaxN = 4  V = {0, 1, 2, 3}
INIT Init
NEXT Next
INVARIANTS Emit
