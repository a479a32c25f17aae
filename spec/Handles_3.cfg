SPECIFICATION HSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Seeds = {"empty", "one", "module", "apart"}
  MaxOps = 3
  MaxHandles = 4
  Ops = {"new", "sub", "reg", "clone", "copy", "drop", "getmod", "in", "const", "gate", "out", "call"}
  Misuse = FALSE
INVARIANTS IdsWellFounded IdsFresh CountersExact ReadersExact OutputsExist
PROPERTIES AppendOnly OneCircuitChanges
