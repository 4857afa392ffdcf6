SPECIFICATION Spec
CONSTANTS Alphabet <- Small
 MaxLen = 4
INVARIANT Guarantees
CHECK_DEADLOCK FALSE
