SPECIFICATION Spec
CONSTANTS
  N = 4
  W = 3
  Emits <- EmitsC
  MayCancel = TRUE
INVARIANTS Bounded Complete
PROPERTIES Refines Ends
