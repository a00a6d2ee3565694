SPECIFICATION Spec
CONSTANT MaxLen = 6
CONSTANT MaxPair = 5
INVARIANTS Grammar Order
CHECK_DEADLOCK FALSE
