CONSTANTS Vals = 4
 Vars = 2
 MaxPiece = 3
 Absolute = TRUE
 Counting = TRUE
 Emit = TRUE
SPECIFICATION Spec
INVARIANTS NoLoop TruePlace Emitted
CHECK_DEADLOCK FALSE
