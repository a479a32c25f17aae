SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"not", "xor"}
  WithConst = TRUE
  NMods = 0
  ModIns = {0}
  ModNodes = 0
  ModOuts = 0
  MainIns = {1, 2}
  MainNodes = 3
  MainOuts = 1
  MustCall = FALSE
  Depth = 0
  Obs = {"sizes", "views", "arities", "nummod", "io", "consts", "alldeps"}
INVARIANTS IdsWellFounded IdsFresh CountersExact ReadersExact OutputsExist
PROPERTIES AppendOnly OneCircuitChanges
