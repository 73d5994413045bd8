SPECIFICATION Spec
CONSTANT MaxLen = 9
INVARIANT C16Count
CHECK_DEADLOCK FALSE
