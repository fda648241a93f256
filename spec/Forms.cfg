INIT Init
NEXT Next
INVARIANT Once
INVARIANT Sane
INVARIANT Report
CHECK_DEADLOCK FALSE
