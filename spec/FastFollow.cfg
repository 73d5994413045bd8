SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK C11
CHECK_DEADLOCK FALSE
