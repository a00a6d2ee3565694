CONSTANTS MaxEnc = 3
 Emit = TRUE
SPECIFICATION Spec
INVARIANTS Prefix Emitted
PROPERTY Sticky
CHECK_DEADLOCK FALSE
