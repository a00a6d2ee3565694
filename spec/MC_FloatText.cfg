SPECIFICATION Spec
CONSTANT MaxLen = 5
CONSTANT MaxPair = 4
INVARIANTS Grammar Order
CHECK_DEADLOCK FALSE
