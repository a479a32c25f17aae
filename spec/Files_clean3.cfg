SPECIFICATION FSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  InGroups <- InG3
  OutGroups <- OutG3
  Types = {"INV", "AND", "XOR", "EQW"}
  MaxLines = 3
  MaxWire = 4
  ExtraWires = {1}
  OnlyClean = TRUE
  Corrupt = {}
  Emits = {"clean"}
INVARIANT ReadAgrees
