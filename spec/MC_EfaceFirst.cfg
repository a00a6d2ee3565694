CONSTANTS N = 4
 MaxN = 1
 Moving = FALSE
 Emit = FALSE
SPECIFICATION SpecAll
INVARIANTS Agrees Bounded
CHECK_DEADLOCK FALSE
