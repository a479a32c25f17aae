SPECIFICATION PSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Setups = {"twice", "mixed", "fp35"}
  Places = {0}
  MaxOps = 3
  Ops = {"bin", "assign", "dup", "cast", "shift", "mux", "cmp"}
INVARIANT Typed
PROPERTY Preserving
