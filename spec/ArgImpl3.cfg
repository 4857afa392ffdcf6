SPECIFICATION Spec
CONSTANT MaxFields = 3
INVARIANTS Outcome Once Lazily
CHECK_DEADLOCK FALSE
