SPECIFICATION PSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Setups = {"int1", "int3x"}
  Places = {0}
  MaxOps = 3
  Ops = {"shift", "const", "cast", "take", "un"}
INVARIANT Typed
PROPERTY Preserving
