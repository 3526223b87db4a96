SPECIFICATION Spec
CONSTANT J = 4
CONSTANT MaxSlots = 3
INVARIANTS AtMostN SlotsKept Outcomes Stops
PROPERTY AllRun
CHECK_DEADLOCK FALSE
