SPECIFICATION Spec
INVARIANTS TypeOK
VIEW Where
CHECK_DEADLOCK FALSE
