CONSTANTS Objs = {"a", "b"}
          MaxOps = 9
SPECIFICATION Spec
INVARIANTS Durable Stays Closed OneWay Encrypted Trusted
PROPERTY Grows
CHECK_DEADLOCK FALSE
