SPECIFICATION Spec
CONSTANT BlockSize = 8
CONSTANT Clients = {1, 2}
CONSTANT Words = 2
CONSTANT Lim = 1
CONSTANT Troubles = {"", "opt1", "thread", "accept"}
CHECK_DEADLOCK FALSE
PROPERTY Served
