SPECIFICATION Spec
CONSTANT Step <- DoStep
CONSTANT State0 <- Start
INVARIANT NothingBroken
ALIAS Shown
CHECK_DEADLOCK FALSE
