SPECIFICATION Spec
CONSTANTS
  N = 3
  W = 2
  Emits <- EmitsC
  MayCancel = TRUE
INVARIANTS Bounded Complete
PROPERTIES Refines Ends
