CONSTANTS Vals = 4
 Vars = 2
 MaxPiece = 3
 Absolute = TRUE
 Counting = FALSE
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS NoLoop TruePlace
CHECK_DEADLOCK FALSE
