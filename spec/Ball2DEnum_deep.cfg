INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS
  Lo <- MinusThree
  Hi = 3
  Radii = {1, 2}
  Ends <- EndsDeep
