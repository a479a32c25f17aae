SPECIFICATION PSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Setups = {"int1", "int3x"}
  Places = {0}
  MaxOps = 2
  Ops = {"shift", "gather"}
INVARIANT Typed
PROPERTY Preserving
