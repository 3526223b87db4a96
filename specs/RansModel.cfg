SPECIFICATION Spec
CONSTANT W = 16
CONSTANT L = 16
CONSTANT T = 8
CONSTANT MaxLen = 3
CONSTANT Syms = 3
INVARIANT InRange
INVARIANT Inverts
CHECK_DEADLOCK FALSE
