SPECIFICATION ESpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"not", "xor"}
  WithConst = TRUE
  NMods = 0
  ModIns = {0}
  ModNodes = 0
  ModOuts = 0
  MainIns = {1, 2}
  MainNodes = 2
  MustCall = FALSE
  Depth = 0
  Obs = {}
  Pin = TRUE
  MainOuts = 3
INVARIANTS NeverFails TableRight CountsPositive
PROPERTY Terminates
