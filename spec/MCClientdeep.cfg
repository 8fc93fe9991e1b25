CONSTANTS MaxN = 5
          MaxPath = 3
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
