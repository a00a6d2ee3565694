CONSTANTS NT = 4
 MaxRoot = 3
 MaxBelow = 2
 Cyclic = FALSE
 Emit = TRUE
SPECIFICATION Spec
INVARIANTS Distinct Ordered Agrees Emitted
CHECK_DEADLOCK FALSE
