INIT Init
NEXT Next
INVARIANT Agrees
INVARIANT Sound
CHECK_DEADLOCK FALSE
