SPECIFICATION Spec
VIEW View
INVARIANTS CycleOK RunOK ShapeOK
CHECK_DEADLOCK FALSE
