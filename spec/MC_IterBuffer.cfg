SPECIFICATION Spec
CONSTANTS Len0 = 4
 Size = 2
 MaxEmpty = 1
INVARIANTS SeesStream Accounted WindowIsRest CaptureExact EofIsEnd FaultKept
CHECK_DEADLOCK FALSE
