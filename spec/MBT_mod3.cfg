SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"not", "and"}
  WithConst = TRUE
  NMods = 1
  ModIns = {0, 1, 2}
  ModNodes = 2
  ModOuts = 2
  MainIns = {1}
  MainNodes = 2
  MainOuts = 0
  MustCall = TRUE
  Depth = 2
  Obs = {"allouts"}
INVARIANTS IdsWellFounded IdsFresh CountersExact ReadersExact OutputsExist
PROPERTIES AppendOnly OneCircuitChanges
