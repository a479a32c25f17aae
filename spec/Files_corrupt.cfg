SPECIFICATION FSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  InGroups <- InG3
  OutGroups <- OutG3
  Types = {"INV", "AND", "EQ"}
  MaxLines = 2
  MaxWire = 3
  ExtraWires = {1}
  OnlyClean = TRUE
  Corrupt = {"token", "row"}
  Emits = {"malformed"}
INVARIANT ReadAgrees
