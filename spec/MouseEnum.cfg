SPECIFICATION Spec
INVARIANT C13
VIEW Where
ALIAS Failing
CHECK_DEADLOCK FALSE
