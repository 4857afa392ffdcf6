SPECIFICATION Spec
CONSTANT MaxFields = 2
INVARIANTS Outcome Once Lazily
PROPERTY Ends
CHECK_DEADLOCK FALSE
