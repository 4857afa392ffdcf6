---------------------------- MODULE ClosingCheck ----------------------------
(* Recorded histories of concurrent threads obey ScopeRules.tla.           *)
EXTENDS ScopeRules, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VQL_CASES)
VARIABLES c, pos, h

Init == c \in 1..Len(Cases) /\ pos = 1 /\ h = H0

Report(v) == PrintT("MISMATCH " \o ToJson([id |-> Cases[c].id, verdict |-> v, at |-> pos]))

Next ==
  /\ pos <= Len(Cases[c].events)
  /\ UNCHANGED c
  /\ LET e == Cases[c].events[pos] IN
     IF Ok(h, e) THEN h' = Upd(h, e) /\ pos' = pos + 1
     ELSE Report(e[1]) /\ pos' = 1000000 /\ UNCHANGED h

Errors == pos = 1 /\ Cases[c].err # "" => Report("error")
Spec == Init /\ [][Next]_<<c, pos, h>>
=============================================================================
