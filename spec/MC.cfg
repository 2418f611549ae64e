INIT Init
NEXT Next
INVARIANT Law
INVARIANT Emit
CHECK_DEADLOCK FALSE
