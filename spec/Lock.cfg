SPECIFICATION Spec
CONSTANTS
 Threads = {"a", "b"}
 Calls = 3
 Chunks = 3
 Variant = "ok"
INVARIANTS Whole UnderLock WaitsFree TeeFree NoHold
PROPERTY Finishes
