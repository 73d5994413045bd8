SPECIFICATION Spec
CONSTANTS
 Threads = {"a", "b"}
 Calls = 2
 Chunks = 2
 Variant = "tee"
INVARIANTS Whole UnderLock WaitsFree TeeFree NoHold
PROPERTY Finishes
