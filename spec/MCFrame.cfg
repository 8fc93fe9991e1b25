CONSTANTS MaxOps = 4
          Depth <- MCDepth
          KB <- MCKB
SPECIFICATION Spec
INVARIANT Twin
PROPERTY FrameProp
CHECK_DEADLOCK FALSE
