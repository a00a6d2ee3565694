CONSTANTS Threads = {1, 2, 3}
 Types = {1, 2, 3}
 Uses = 1
 Early = TRUE
 Unlocked = FALSE
 InPlace = FALSE
SPECIFICATION Spec
INVARIANTS PublishedComplete UseComplete NoRace OneBuilder
PROPERTIES Stable Done
CHECK_DEADLOCK FALSE
