CONSTANTS MaxLog = 5
          LogVals = {"a", "b", "c", "d"}
          MaxMut = 3
          Vals = {"a", "b"}
          Depth <- MCDepth
          KB <- MCKB
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Stable
CHECK_DEADLOCK FALSE
