SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"not", "xor", "or"}
  WithConst = TRUE
  NMods = 0
  ModIns = {0}
  ModNodes = 0
  ModOuts = 0
  MainIns = {0, 1, 2}
  MainNodes = 2
  MainOuts = 2
  MustCall = FALSE
  Depth = 0
  Obs = {"sizes", "views", "arities", "nummod", "io", "consts", "alldeps"}
INVARIANTS IdsWellFounded IdsFresh CountersExact ReadersExact OutputsExist SizesAgree
PROPERTIES AppendOnly OneCircuitChanges
