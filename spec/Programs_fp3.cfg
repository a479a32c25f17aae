SPECIFICATION PSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Setups = {"fp3", "fp35"}
  Places = {0}
  MaxOps = 3
  Ops = {"bin", "assign", "un", "cmp", "const"}
INVARIANT Typed
PROPERTY Preserving
