SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Sym
INVARIANT Refl
INVARIANT Mirror
INVARIANT AtMostOne
INVARIANT Trichotomy
INVARIANT Kinds
INVARIANT TransLt
INVARIANT TransEq
INVARIANT LtEq
INVARIANT Composite
INVARIANT Keys
INVARIANT AddSubInv
INVARIANT AddComm
INVARIANT MulComm
INVARIANT FloatWins
INVARIANT Member
INVARIANT Concat
INVARIANT Cut
