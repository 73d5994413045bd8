SPECIFICATION Spec
INVARIANT CharInv
VIEW Where
CHECK_DEADLOCK FALSE
