SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"xor"}
  WithConst = FALSE
  NMods = 2
  ModIns = {1}
  ModNodes = 1
  ModOuts = 2
  MainIns = {1}
  MainNodes = 2
  MainOuts = 0
  MustCall = TRUE
  Depth = 2
  Obs = {"allouts"}
INVARIANTS IdsWellFounded IdsFresh CountersExact ReadersExact OutputsExist
PROPERTIES AppendOnly OneCircuitChanges
