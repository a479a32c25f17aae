SPECIFICATION HSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Seeds = {"empty", "one", "module", "apart"}
  MaxOps = 2
  MaxHandles = 4
  Ops = {"new", "sub", "reg", "clone", "copy", "drop", "getmod", "in", "const", "gate", "out", "call"}
  Misuse = TRUE
INVARIANTS IdsWellFounded IdsFresh CountersExact ReadersExact OutputsExist
PROPERTIES AppendOnly OneCircuitChanges
