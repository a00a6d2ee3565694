CONSTANTS Threads = {1, 2, 3}
 Types = {1, 2, 3, 4}
 Uses = 2
 Early = FALSE
 Unlocked = FALSE
 InPlace = FALSE
SPECIFICATION Spec
INVARIANTS PublishedComplete UseComplete NoRace OneBuilder
PROPERTIES Stable Done
CHECK_DEADLOCK FALSE
