SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Widths = {1, 2, 3, 4, 5}
  Edge = {12, 13, 14, 15, 23, 24, 25}
INVARIANTS Representation Binary Single Field
