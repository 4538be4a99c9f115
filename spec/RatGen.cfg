INIT Init
NEXT Next
INVARIANT Normal
CONSTANTS
  Nums <- WideNums
  Dens <- WideDens
  Bound = 100000
  Depth = 6
