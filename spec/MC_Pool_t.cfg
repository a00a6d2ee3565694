CONSTANTS MaxOps = 4
 Emit = TRUE
SPECIFICATION Spec
INVARIANTS Harmless Emitted
CHECK_DEADLOCK FALSE
