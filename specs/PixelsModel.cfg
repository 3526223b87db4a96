SPECIFICATION Spec
CONSTANT M = 4
CONSTANT W = 3
CONSTANT Hgt = 2
INVARIANT DeltaInverts
INVARIANT LiftInverts
INVARIANT PaethInverts
CHECK_DEADLOCK FALSE
