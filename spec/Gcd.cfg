SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Max = 30
INVARIANTS Bezout Divisor Greatest Falls Small
PROPERTY Ends
