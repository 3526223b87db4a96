SPECIFICATION Spec
CONSTANT Blocks = 5
CONSTANT Workers = 2
INVARIANT OneAtATime
INVARIANT Success
INVARIANT Failure
INVARIANT InStep
INVARIANT Stops
PROPERTY Ends
CHECK_DEADLOCK FALSE
