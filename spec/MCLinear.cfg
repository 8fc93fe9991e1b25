CONSTANTS Procs = {1,2,3}
 Modes = {"tx", "mixed", "racing"}
 MaxWrites = 2
SPECIFICATION Spec
INVARIANTS Linearized JudgeRight
CHECK_DEADLOCK FALSE
