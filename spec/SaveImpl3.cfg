CONSTANTS
  Names = {"a", "b", "c"}
  MaxFrames = 3
  MaxOps = 3
SPECIFICATION Spec
INVARIANTS SameMeaning SameKind
CHECK_DEADLOCK FALSE
