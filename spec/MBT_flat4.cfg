SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"not", "and"}
  WithConst = TRUE
  NMods = 0
  ModIns = {0}
  ModNodes = 0
  ModOuts = 0
  MainIns = {1, 2}
  MainNodes = 4
  MainOuts = 0
  MustCall = FALSE
  Depth = 2
  Obs = {"allouts"}
INVARIANTS IdsWellFounded IdsFresh CountersExact ReadersExact OutputsExist
PROPERTIES AppendOnly OneCircuitChanges
