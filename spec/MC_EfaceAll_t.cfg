CONSTANTS N = 7
 MaxN = 1
 Moving = TRUE
 Emit = FALSE
SPECIFICATION SpecAll
INVARIANTS Agrees Bounded
CHECK_DEADLOCK FALSE
