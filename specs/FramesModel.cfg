SPECIFICATION Spec
CONSTANT Ops = 2
CONSTANT Longest = 2
CONSTANT Supply = 4
INVARIANT Whole
INVARIANT InOrder
INVARIANT OnlyOnce
PROPERTY Returns
CHECK_DEADLOCK FALSE
