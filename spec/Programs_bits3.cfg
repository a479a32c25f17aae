SPECIFICATION PSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Setups = {"bits1", "bits2"}
  Places = {0}
  MaxOps = 3
  Ops = {"bin", "assign", "un", "mux", "gather"}
INVARIANT Typed
PROPERTY Preserving
