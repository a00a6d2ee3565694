CONSTANTS MaxCalls = 7
 MaxFlush = 1
 Faults = FALSE
 Emit = TRUE
SPECIFICATION Spec
INVARIANTS Exact Spells Emitted
CHECK_DEADLOCK FALSE
