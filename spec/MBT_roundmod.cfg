SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"not", "and"}
  WithConst = TRUE
  NMods = 1
  ModIns = {0, 1, 2}
  ModNodes = 1
  ModOuts = 2
  MainIns = {1, 2}
  MainNodes = 2
  MainOuts = 0
  MustCall = TRUE
  Depth = 2
  Obs = {"allround"}
INVARIANTS IdsWellFounded IdsFresh CountersExact ReadersExact OutputsExist
PROPERTIES AppendOnly OneCircuitChanges
