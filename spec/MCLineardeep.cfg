CONSTANTS Procs = {1,2,3,4}
 Modes = {"tx", "mixed", "racing"}
 MaxWrites = 3
SPECIFICATION Spec
INVARIANTS Linearized JudgeRight
CHECK_DEADLOCK FALSE
