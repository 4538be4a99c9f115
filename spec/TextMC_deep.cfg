INIT Init
NEXT Next
INVARIANTS Inv Emit
CONSTANTS
  MaxLen = 6
  Alphabet = {97, 32, 44, 48}
  Delims = {44, 48}
