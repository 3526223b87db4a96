SPECIFICATION Spec
CONSTANT MaxF = 6
CONSTANT MaxN = 4
INVARIANT Proper
CHECK_DEADLOCK FALSE
