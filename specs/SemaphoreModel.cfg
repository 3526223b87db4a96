SPECIFICATION Spec
CONSTANT T = 3
CONSTANT MaxOps = 2
CONSTANT MaxInit = 1
INVARIANTS OverAdmission Permits Mutual Forgotten
CHECK_DEADLOCK FALSE
