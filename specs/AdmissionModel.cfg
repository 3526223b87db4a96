SPECIFICATION Spec
CONSTANT Clients = {1, 2, 3, 4}
CONSTANT Lim = 2
INVARIANT Slots
INVARIANT Limit
INVARIANT Once
PROPERTY Admitted
PROPERTY Over
CHECK_DEADLOCK FALSE
