SPECIFICATION PSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Setups = {"bits1", "bits2"}
  Places = {0, 1}
  MaxOps = 2
  Ops = {"bin", "assign", "un", "cmp", "mux", "dup", "gather"}
INVARIANT Typed
PROPERTY Preserving
