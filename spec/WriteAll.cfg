SPECIFICATION Fair
CONSTANT MaxLen = 6
INVARIANT C16Count
PROPERTY C16WriteEnds
CHECK_DEADLOCK FALSE
