SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANT C16Count
CHECK_DEADLOCK FALSE
