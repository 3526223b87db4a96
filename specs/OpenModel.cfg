SPECIFICATION Spec
CONSTANT T = 3
CONSTANT Files = {"x", "y"}
CONSTANT BadFiles = {"y"}
CONSTANT Rounds = 2
INVARIANTS OneOwner OnePermit NobodyStuck
CHECK_DEADLOCK FALSE
