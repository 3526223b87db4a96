SPECIFICATION Spec
CONSTANT Max = 9
INVARIANT Fresh
INVARIANT Covers
INVARIANT Diagonals
INVARIANT Direction
INVARIANT SecondIsRight
PROPERTY Ends
CHECK_DEADLOCK FALSE
