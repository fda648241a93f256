INIT Init
NEXT Next
VIEW View
PROPERTY Adds
CHECK_DEADLOCK FALSE
