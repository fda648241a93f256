INIT Init
NEXT Next
VIEW View
INVARIANT ScopesMatch
INVARIANT BytesAre
PROPERTY SecondPassKeepsLayout
CHECK_DEADLOCK FALSE
