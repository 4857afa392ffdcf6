SPECIFICATION Spec
CONSTANTS Alphabet <- Words
 MaxLen = 4
INVARIANT Guarantees
CHECK_DEADLOCK FALSE
