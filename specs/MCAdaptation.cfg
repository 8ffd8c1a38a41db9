INIT Init
NEXT Next
INVARIANT SdOk
INVARIANT SpeedOk
INVARIANT PopOk
INVARIANT Enough
CHECK_DEADLOCK FALSE
