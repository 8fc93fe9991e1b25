CONSTANTS Spaces = {"s1"}
          Keys = {"k1"}
          Vals = {"", "v"}
          Txs = {"t1", "t2", "t3"}
          MaxUpdates = 3
          Transactional = TRUE
SPECIFICATION Spec
INVARIANTS NoLostUpdate OneView NoAbsent
PROPERTIES Linear OneSpace
CHECK_DEADLOCK FALSE
