CONSTANTS Items = {"a", "b", "c", "d", "e", "f"}
 MaxSize = 6
 MaxFaults = 1
SPECIFICATION Spec
INVARIANTS Content Answers Once
PROPERTIES Grows Stable Told
CHECK_DEADLOCK FALSE
