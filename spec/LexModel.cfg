SPECIFICATION Spec
CONSTANTS Alphabet <- Small
 MaxLen = 3
INVARIANT Guarantees
CHECK_DEADLOCK FALSE
