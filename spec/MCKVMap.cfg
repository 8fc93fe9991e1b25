CONSTANTS MaxMut = 4
          Vals = {"a", "b"}
          Keys = {"k1", "k2", "k3", "k4"}
          Depth <- MCDepth
          KB <- MCKB
SPECIFICATION Spec
INVARIANT Inv
PROPERTY OnlyAdded
CHECK_DEADLOCK FALSE
