INIT Init
NEXT Next
INVARIANT Emit
CONSTANT Hi = 5
