SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Done
INVARIANT Stuck
