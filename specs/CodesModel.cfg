SPECIFICATION Spec
CONSTANT MaxV = 17
CONSTANT MaxLen = 3
INVARIANT EliasGammaConcatenates
INVARIANT UnaryConcatenates
CHECK_DEADLOCK FALSE
