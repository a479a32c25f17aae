SPECIFICATION PSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Setups = {"int1", "int2"}
  Places = {0}
  MaxOps = 3
  Ops = {"cmp", "un", "bin", "const"}
INVARIANT Typed
PROPERTY Preserving
