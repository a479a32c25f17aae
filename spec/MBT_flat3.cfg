SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"not", "xor", "and", "or"}
  WithConst = TRUE
  NMods = 0
  ModIns = {0}
  ModNodes = 0
  ModOuts = 0
  MainIns = {0, 1, 2}
  MainNodes = 3
  MainOuts = 0
  MustCall = FALSE
  Depth = 2
  Obs = {"allouts"}
INVARIANTS IdsWellFounded IdsFresh CountersExact ReadersExact OutputsExist
PROPERTIES AppendOnly OneCircuitChanges
