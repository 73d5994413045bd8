SPECIFICATION Spec
INVARIANT C12
VIEW Where
CHECK_DEADLOCK FALSE
ALIAS Failing
