------------------------------ MODULE SaveCheck ------------------------------
(***************************************************************************)
(* Scopes of plain data which were saved and restored (recorded by the     *)
(* harness) have the values they had.  frames are the bindings, the        *)
(* innermost last; ignore are the names which are not to be restored.      *)
(* Numbers are text, so that they are compared exactly.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VQL_CASES)
W == 8
VARIABLES i, bad

None == <<"none">>
\* Not part of what is saved: the host's own.
HostNames == {"NULL", "config", "Artifact", "$x"}

Bindings(frame, n) == {q \in 1..Len(frame) : frame[q][1] = n}
RECURSIVE Resolve(_, _)
Resolve(fs, n) ==
  IF fs = <<>> THEN None
  ELSE LET f == fs[Len(fs)]
       IN IF Bindings(f, n) # {} THEN f[CHOOSE q \in Bindings(f, n) : TRUE][2]
          ELSE Resolve(SubSeq(fs, 1, Len(fs) - 1), n)

Ignored(c, n) == n \in HostNames \/ \E q \in 1..Len(c.ignore) : c.ignore[q] = n
Expected(c, n) == IF Ignored(c, n) THEN None ELSE Resolve(c.frames, n)
Wrong(c) == {q \in 1..Len(c.res) : c.res[q][2] # Expected(c, c.res[q][1])}

Verdict(c) ==
  IF c.err # "" THEN "error"
  ELSE IF Wrong(c) = {} THEN "ok"
  ELSE IF \A q \in Wrong(c) : c.res[q][2] = None THEN "lost"
  ELSE IF \A q \in Wrong(c) : Ignored(c, c.res[q][1]) THEN "not ignored"
  ELSE "value"

Report(c, v) ==
  PrintT("MISMATCH " \o ToJson([id |-> c.id, verdict |-> v,
    exp |-> IF c.err # "" THEN <<>>
            ELSE LET q == CHOOSE x \in Wrong(c) : TRUE
                 IN <<c.res[q][1], Expected(c, c.res[q][1]), c.res[q][2]>>]))

Step(n) ==
  \E v \in {Verdict(Cases[n])} :
     /\ i' = n
     /\ bad' = IF v = "ok" THEN bad ELSE bad + (IF Report(Cases[n], v) THEN 1 ELSE 1)

Init == \E n \in 1..W : i = n - W /\ bad = 0
Next == i + W <= Len(Cases) /\ Step(i + W)
Spec == Init /\ [][Next]_<<i, bad>>
===============================================================================
