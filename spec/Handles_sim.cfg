SPECIFICATION HSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Seeds = {"empty", "one", "module", "apart"}
  MaxOps = 12
  MaxHandles = 7
  Ops = {"new", "sub", "reg", "clone", "copy", "drop", "getmod", "in", "const", "gate", "out", "call"}
  Misuse = FALSE
INVARIANTS IdsWellFounded IdsFresh CountersExact ReadersExact OutputsExist
