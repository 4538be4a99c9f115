INIT Init
NEXT Next
INVARIANTS InCell Back
CONSTANTS
 H = 2
 V = 1
 MaxT = 9
