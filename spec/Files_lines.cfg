SPECIFICATION FSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  InGroups <- InG1
  OutGroups <- OutG1
  Types = {"INV", "XOR", "AND", "OR", "EQ", "EQW", "NOT"}
  MaxLines = 1
  MaxWire = 3
  ExtraWires = {0, 1, 2}
  OnlyClean = FALSE
  Corrupt = {}
  Emits = {"malformed"}
INVARIANT ReadAgrees
