SPECIFICATION Spec
CONSTANT Arrays = {a, b, c, d}
INVARIANTS InMemory NoLeak
PROPERTY OnlyWrites
CHECK_DEADLOCK FALSE
