SPECIFICATION WSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"xor"}
  WithConst = TRUE
  NMods = 2
  ModIns = {1}
  ModNodes = 1
  ModOuts = 2
  MainIns = {1}
  MainNodes = 1
  MustCall = FALSE
  Depth = 0
  Obs = {}
  AllOutputs = TRUE
  MainOuts = 2
INVARIANTS NoOperandMissing WiresRight ConstantsFit WrittenOnce WrittenRight
PROPERTY Ends
