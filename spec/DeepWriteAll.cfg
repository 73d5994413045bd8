SPECIFICATION Fair
CONSTANT MaxLen = 9
INVARIANT C16Count
PROPERTY C16WriteEnds
CHECK_DEADLOCK FALSE
