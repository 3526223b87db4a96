SPECIFICATION FairSpec
CONSTANT T = 2
CONSTANT Files = {"x", "y"}
CONSTANT BadFiles = {"y"}
CONSTANT Rounds = 2
PROPERTY EverybodyDone
CHECK_DEADLOCK FALSE
