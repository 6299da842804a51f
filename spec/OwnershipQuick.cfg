SPECIFICATION Spec
CONSTANT Arrays = {a, b, c}
INVARIANTS InMemory NoLeak
PROPERTY OnlyWrites
CHECK_DEADLOCK FALSE
