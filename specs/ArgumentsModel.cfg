SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANT SameLanguage
CHECK_DEADLOCK FALSE
