SPECIFICATION Spec
CONSTANT Buf = 3
CONSTANT MaxOps = 15
INVARIANT Refines
INVARIANT Sizes
INVARIANT NoEmptyBuffer
CHECK_DEADLOCK FALSE
