SPECIFICATION HSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Seeds = {"module"}
  MaxOps = 4
  MaxHandles = 4
  Ops = {"reg", "clone", "copy", "drop", "in", "gate", "call"}
  Misuse = FALSE
INVARIANTS IdsWellFounded IdsFresh CountersExact ReadersExact OutputsExist
PROPERTIES AppendOnly OneCircuitChanges
