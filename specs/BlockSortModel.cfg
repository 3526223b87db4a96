SPECIFICATION Spec
CONSTANT K = 3
CONSTANT MaxLen = 6
INVARIANT InverseOfSort
INVARIANT OnlyTheSortedColumn
INVARIANT InverseOfMtf
INVARIANT FrontIsZero
CHECK_DEADLOCK FALSE
