CONSTANTS Vals = 4
 Vars = 2
 MaxPiece = 3
 Absolute = FALSE
 Counting = TRUE
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS NoLoop TruePlace
CHECK_DEADLOCK FALSE
