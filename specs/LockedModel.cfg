SPECIFICATION Spec
CONSTANT T = 3
CONSTANT Keys = {1}
CONSTANT MaxOps = 2
INVARIANTS Linearizable NobodyStuck EndsRight
CHECK_DEADLOCK FALSE
