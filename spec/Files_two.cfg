SPECIFICATION FSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  InGroups <- InG2
  OutGroups <- OutG2
  Types = {"INV", "XOR", "EQW"}
  MaxLines = 2
  MaxWire = 3
  ExtraWires = {1}
  OnlyClean = FALSE
  Corrupt = {}
  Emits = {"malformed"}
INVARIANT ReadAgrees
