CONSTANTS
  Names = {"a", "b"}
  MaxFrames = 3
  MaxOps = 4
SPECIFICATION Spec
INVARIANTS SameMeaning SameKind
CHECK_DEADLOCK FALSE
