SPECIFICATION PSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Setups = {"mixed", "mixed2", "two", "twice", "fp35"}
  Places = {0, 1}
  MaxOps = 2
  Ops = {"bin", "assign", "un", "cmp", "shift", "mux", "dup", "const", "take", "cast", "bgate"}
INVARIANT Typed
PROPERTY Preserving
