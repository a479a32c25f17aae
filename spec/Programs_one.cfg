SPECIFICATION PSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Setups = {"int2"}
  Places = {0}
  MaxOps = 3
  Ops = {"bin", "assign", "dup"}
INVARIANT Typed
PROPERTY Preserving
