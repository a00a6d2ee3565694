CONSTANT K = 64
INIT Init
NEXT Next
INVARIANT Judged
CHECK_DEADLOCK FALSE
