INIT Init
NEXT Next
CONSTANTS
  Hi = 3
  Most = 3
INVARIANTS Found Emit
