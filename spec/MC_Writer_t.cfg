CONSTANTS MaxCalls = 9
 MaxFlush = 1
 Faults = FALSE
 Emit = TRUE
SPECIFICATION Spec
INVARIANTS Exact Spells Emitted
CHECK_DEADLOCK FALSE
