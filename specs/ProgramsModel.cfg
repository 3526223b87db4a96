SPECIFICATION Spec
CONSTANT T = 3
CONSTANT MaxDevs = 2
CONSTANT Ops = 6
INVARIANTS NobodyStuck InRange OwnLock
CHECK_DEADLOCK FALSE
