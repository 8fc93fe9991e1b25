CONSTANTS Objs = {"a", "b", "c"}
          MaxMuts = 6
          BatchSizes = {1, 2, 4}
          BufferSizes = {0, 1, 3}
SPECIFICATION Spec
INVARIANTS Prefixes OnItsWay BaseOK
PROPERTIES Grows Drains
CHECK_DEADLOCK FALSE
