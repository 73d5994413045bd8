SPECIFICATION Spec
VIEW Where
CHECK_DEADLOCK FALSE
