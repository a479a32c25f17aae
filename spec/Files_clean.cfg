SPECIFICATION FSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  InGroups <- InG4
  OutGroups <- OutG4
  Types = {"INV", "XOR", "AND", "OR", "EQ", "EQW"}
  MaxLines = 2
  MaxWire = 4
  ExtraWires = {1}
  OnlyClean = TRUE
  Corrupt = {}
  Emits = {"clean"}
INVARIANT ReadAgrees
