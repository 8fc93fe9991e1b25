CONSTANTS Spaces = {"s1", "s2"}
          Keys = {"k1", "k2"}
          Vals = {"", "v"}
          Txs = {"t1", "t2"}
          MaxUpdates = 2
          Transactional = TRUE
SPECIFICATION Spec
INVARIANTS NoLostUpdate OneView NoAbsent
PROPERTIES Linear OneSpace
CHECK_DEADLOCK FALSE
