SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Widths = {1, 2, 3, 4, 5, 6, 7}
  Edge = {11, 12, 13, 14, 15, 22, 23, 24, 25, 26}
INVARIANTS Representation Binary Single Field
