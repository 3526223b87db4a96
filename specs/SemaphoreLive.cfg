SPECIFICATION Spec
CONSTANT T = 2
CONSTANT MaxOps = 2
CONSTANT MaxInit = 1
PROPERTY Settles
CHECK_DEADLOCK FALSE
