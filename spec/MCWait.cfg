CONSTANTS MaxN = 6
          Want = 5
SPECIFICATION Spec
INVARIANT Included
INVARIANT LongEnough
INVARIANT NoneMissed
PROPERTY Returns
PROPERTY ReturnsSize
CHECK_DEADLOCK FALSE
