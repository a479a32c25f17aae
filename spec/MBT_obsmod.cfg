SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"and"}
  WithConst = TRUE
  NMods = 2
  ModIns = {1, 2}
  ModNodes = 1
  ModOuts = 2
  MainIns = {1}
  MainNodes = 1
  MainOuts = 0
  MustCall = TRUE
  Depth = 0
  Obs = {"sizes", "views", "arities", "nummod", "io", "consts", "alldeps", "allouts"}
INVARIANTS IdsWellFounded IdsFresh CountersExact ReadersExact OutputsExist SizesAgree
PROPERTIES AppendOnly OneCircuitChanges
