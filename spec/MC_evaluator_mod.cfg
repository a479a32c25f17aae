SPECIFICATION ESpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"and"}
  WithConst = FALSE
  NMods = 1
  ModIns = {1,2}
  ModNodes = 1
  ModOuts = 2
  MainIns = {1, 2}
  MainNodes = 2
  MustCall = FALSE
  Depth = 0
  Obs = {}
  Pin = TRUE
  MainOuts = 2
INVARIANTS NeverFails TableRight CountsPositive
PROPERTY Terminates
