SPECIFICATION PSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Setups = {"fp3", "fp7", "fp35"}
  Places = {0}
  MaxOps = 2
  Ops = {"bin", "assign", "un", "cmp", "dup", "const"}
INVARIANT Typed
PROPERTY Preserving
