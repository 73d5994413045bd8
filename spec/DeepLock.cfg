SPECIFICATION Spec
CONSTANTS
 Threads = {"a", "b", "c"}
 Calls = 2
 Chunks = 3
 Variant = "ok"
INVARIANTS Whole UnderLock WaitsFree TeeFree NoHold
PROPERTY Finishes
