SPECIFICATION Spec
CONSTANT Step <- DoStep
CONSTANT State0 <- Start
CONSTANT Apply <- DoApply
CONSTANT Match <- DoMatch
INVARIANT NothingBroken
ALIAS Shown
CHECK_DEADLOCK FALSE
