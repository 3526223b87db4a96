SPECIFICATION Spec
CONSTANT BlockSize = 8
CONSTANT Clients = {1, 2}
CONSTANT Words = 2
CONSTANT Lim = 1
CONSTANT Troubles = {"", "opt1", "thread", "accept"}
VIEW View
INVARIANT Limit
INVARIANT Located
INVARIANT BeforeHandshake
INVARIANT Stored
INVARIANT Forgotten
CHECK_DEADLOCK FALSE
