INIT Init
NEXT Next
CONSTANTS
  Ks = {1, 2, 3, 5}
  Everys = {1, 2, 3}
  Modes = {"one", "each"}
  MaxCuts = 2
INVARIANTS Faithful Whole Emit
CHECK_DEADLOCK FALSE
