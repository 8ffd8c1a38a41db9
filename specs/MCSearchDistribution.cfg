INIT Init
NEXT Next
INVARIANT Ok
INVARIANT RootOk
CHECK_DEADLOCK FALSE
