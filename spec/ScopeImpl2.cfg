SPECIFICATION Spec
CONSTANTS Threads = {t1, t2}
 t1 = t1 t2 = t2 Ops = 3
 Scopes = 3
 Dtors = 3
 Rounds = 4
 Atomic = TRUE
INVARIANT Obeys
SYMMETRY Sym
