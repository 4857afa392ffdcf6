SPECIFICATION Spec
CONSTANTS
  N = 4
  W = 1
  Emits <- EmitsC
  MayCancel = TRUE
INVARIANTS Bounded Complete
PROPERTIES Refines Ends
