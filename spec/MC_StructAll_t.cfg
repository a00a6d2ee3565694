CONSTANTS NT = 3
 MaxRoot = 3
 MaxBelow = 3
 Cyclic = TRUE
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS Distinct Ordered Agrees Emitted
CHECK_DEADLOCK FALSE
