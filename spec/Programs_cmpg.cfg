SPECIFICATION PSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Setups = {"int1", "int2"}
  Places = {0, 1}
  MaxOps = 2
  Ops = {"cmp", "gather"}
INVARIANT Typed
PROPERTY Preserving
