SPECIFICATION Spec
CONSTANT DEPTH = 60
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
