INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS
  Lo <- MinusTwo
  Hi = 3
  Radii = {1, 2}
  Ends <- EndsQuick
