SPECIFICATION Spec
CONSTANTS Threads = {t1, t2}
 t1 = t1 t2 = t2 Ops = 2
 Scopes = 2
 Dtors = 2
 Rounds = 2
 Atomic = FALSE
INVARIANT Obeys
SYMMETRY Sym
