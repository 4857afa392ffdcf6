SPECIFICATION Spec
CONSTANTS Alphabet <- Words
 MaxLen = 3
INVARIANT Guarantees
CHECK_DEADLOCK FALSE
