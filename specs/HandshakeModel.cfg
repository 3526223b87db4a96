SPECIFICATION Spec
CONSTANT Width = 2
CONSTANT Base = 2
CONSTANT Sessions = {1, 2, 3}
CONSTANT MaxPwd = 3
INVARIANT OnlyAfter
INVARIANT LetIn
INVARIANT NoReplay
INVARIANT Mirror
CHECK_DEADLOCK FALSE
