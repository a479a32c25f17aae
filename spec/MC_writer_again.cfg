SPECIFICATION WSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"and"}
  WithConst = TRUE
  NMods = 1
  ModIns = {1}
  ModNodes = 1
  ModOuts = 2
  MainIns = {1}
  MainNodes = 2
  MustCall = FALSE
  Depth = 0
  Obs = {}
  AllOutputs = FALSE
  MainOuts = 2
INVARIANTS NoOperandMissing WiresRight ConstantsFit WrittenOnce WrittenRight
PROPERTY Ends
