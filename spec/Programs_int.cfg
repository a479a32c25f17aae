SPECIFICATION PSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Setups = {"int1", "int2", "int3"}
  Places = {0}
  MaxOps = 2
  Ops = {"bin", "assign", "un", "dup", "const"}
INVARIANT Typed
PROPERTY Preserving
