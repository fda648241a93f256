INIT Init
NEXT Next
VIEW View
INVARIANT TypeOK
PROPERTY Forward
CHECK_DEADLOCK FALSE
