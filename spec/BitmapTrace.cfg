INIT Init
NEXT Next
VIEW View
INVARIANT BytesAre
PROPERTY OnlyGrows
CHECK_DEADLOCK FALSE
