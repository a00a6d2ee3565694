CONSTANTS N = 1
 MaxN = 24
 Moving = TRUE
 Emit = TRUE
SPECIFICATION SpecRho
INVARIANTS Agrees Bounded Emitted
CHECK_DEADLOCK FALSE
