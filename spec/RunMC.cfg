SPECIFICATION Spec
CONSTANTS
  Ks = {1, 2, 4}
  Everys = {1, 2, 3}
  Modes = {"one", "each"}
  MaxCuts = 2
INVARIANTS Faithful NeverLost Whole
PROPERTY Ends
CHECK_DEADLOCK FALSE
