CONSTANTS MaxSize = 3
          MaxLead = 3
INIT Init
NEXT Next
INVARIANT Same
CHECK_DEADLOCK FALSE
