CONSTANTS Objs = {"a", "b"}
          MaxMuts = 5
          BatchSizes = {1, 2, 3}
          BufferSizes = {0, 1, 3}
SPECIFICATION Spec
INVARIANTS Prefixes OnItsWay BaseOK
PROPERTIES Grows Drains
CHECK_DEADLOCK FALSE
