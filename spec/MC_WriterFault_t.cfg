CONSTANTS MaxCalls = 5
 MaxFlush = 4
 Faults = TRUE
 Emit = TRUE
SPECIFICATION Spec
INVARIANTS Exact Spells Emitted
CHECK_DEADLOCK FALSE
