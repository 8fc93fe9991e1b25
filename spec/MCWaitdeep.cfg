CONSTANTS MaxN = 14
          Want = 12
SPECIFICATION Spec
INVARIANT Included
INVARIANT LongEnough
INVARIANT NoneMissed
PROPERTY Returns
PROPERTY ReturnsSize
CHECK_DEADLOCK FALSE
