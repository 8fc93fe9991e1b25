CONSTANTS Items = {"a", "b", "c", "d"}
 MaxSize = 4
 MaxFaults = 2
SPECIFICATION Spec
INVARIANTS Content Answers Once
PROPERTIES Grows Stable Told
CHECK_DEADLOCK FALSE
