SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Max = 120
INVARIANTS Bezout Divisor Greatest Falls Small
PROPERTY Ends
