INIT Init
NEXT Next
CONSTANTS
  Hi = 3
  Most = 2
INVARIANTS Found Emit
