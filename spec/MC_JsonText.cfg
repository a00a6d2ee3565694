SPECIFICATION Spec
CONSTANT MaxLen = 5
CONSTANT Alphabet = {32, 34, 92, 91, 93, 123, 125, 44, 58, 45, 48, 49, 46, 101, 1, 120}
INVARIANTS TypeOK KeyOnTop MachineIsGrammar ParserIsMachine Dead
CHECK_DEADLOCK FALSE
