CONSTANTS MaxCalls = 4
 MaxFlush = 3
 Faults = TRUE
 Emit = TRUE
SPECIFICATION Spec
INVARIANTS Exact Spells Emitted
CHECK_DEADLOCK FALSE
