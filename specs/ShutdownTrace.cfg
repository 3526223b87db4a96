SPECIFICATION Spec
CONSTANT Step <- ShutStep
CONSTANT State0 <- ShutStart
CONSTANT Apply <- ShutApply
CONSTANT Match <- DoMatch
INVARIANT NothingBroken
ALIAS Shown
CHECK_DEADLOCK FALSE
