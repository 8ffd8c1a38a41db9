CONSTANTS MaxArrs = 2
          MaxTens = 1
          MaxDepth = 7
INIT Init
NEXT NextOnlyO
PROPERTY Insulated
PROPERTY UserOwned
INVARIANT Follow
INVARIANT Sharing
CHECK_DEADLOCK FALSE
CONSTRAINT Short
