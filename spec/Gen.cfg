SPECIFICATION Spec
CONSTANT DEPTH = 60
INVARIANTS TypeOK C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C17 C18 C19 C20
CHECK_DEADLOCK FALSE
