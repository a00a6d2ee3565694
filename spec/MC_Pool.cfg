CONSTANTS MaxOps = 3
 Emit = TRUE
SPECIFICATION Spec
INVARIANTS Harmless Emitted
CHECK_DEADLOCK FALSE
