SPECIFICATION Spec
CONSTANTS N = 4  Max = 3
INVARIANTS Correct ComplementOk
PROPERTY Monotone
CHECK_DEADLOCK FALSE
