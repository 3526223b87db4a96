SPECIFICATION Spec
CONSTANT Step <- DoStep
CONSTANT State0 <- Start
CONSTANT BlockSize = 8
INVARIANT NothingBroken
ALIAS Shown
CHECK_DEADLOCK FALSE
