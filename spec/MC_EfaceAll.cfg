CONSTANTS N = 6
 MaxN = 1
 Moving = TRUE
 Emit = FALSE
SPECIFICATION SpecAll
INVARIANTS Agrees Bounded
CHECK_DEADLOCK FALSE
