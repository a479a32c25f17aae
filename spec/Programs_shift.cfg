SPECIFICATION PSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Setups = {"int1", "int3x", "int5x"}
  Places = {0, 1}
  MaxOps = 2
  Ops = {"shift", "const", "cast", "take"}
INVARIANT Typed
PROPERTY Preserving
