SPECIFICATION Spec
CONSTANTS Len0 = 7
 Size = 3
 MaxEmpty = 1
INVARIANTS SeesStream Accounted WindowIsRest CaptureExact EofIsEnd FaultKept
CHECK_DEADLOCK FALSE
