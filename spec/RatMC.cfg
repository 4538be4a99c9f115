INIT Init
NEXT Step
VIEW View
INVARIANTS Normal Laws
CONSTANTS
  Nums <- SmallNums
  Dens <- SmallDens
  Bound = 9
  Depth = 3
