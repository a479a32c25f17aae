SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"xor"}
  WithConst = TRUE
  NMods = 1
  ModIns = {1, 2}
  ModNodes = 1
  ModOuts = 2
  MainIns = {1}
  MainNodes = 2
  MainOuts = 1
  MustCall = TRUE
  Depth = 0
  Obs = {"writes"}
INVARIANTS IdsWellFounded IdsFresh CountersExact ReadersExact OutputsExist
PROPERTIES AppendOnly OneCircuitChanges
