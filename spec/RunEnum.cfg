INIT Init
NEXT Next
CONSTANTS
  Ks = {3, 4}
  Everys = {1, 2}
  Modes = {"one", "each"}
  MaxCuts = 1
INVARIANTS Faithful Whole Emit
CHECK_DEADLOCK FALSE
