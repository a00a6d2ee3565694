CONSTANTS Vals = 5
 Vars = 2
 MaxPiece = 4
 Absolute = TRUE
 Counting = TRUE
 Emit = TRUE
SPECIFICATION Spec
INVARIANTS NoLoop TruePlace Emitted
CHECK_DEADLOCK FALSE
