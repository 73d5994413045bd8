SPECIFICATION Spec
VIEW View
INVARIANTS PumpOK Clear
CHECK_DEADLOCK FALSE
