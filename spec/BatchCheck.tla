------------------------------ MODULE BatchCheck ------------------------------
(***************************************************************************)
(* Recorded runs of GetResponseChannel are behaviours of Batch.tla.  A     *)
(* record has the parameters and the events in the order they were seen:   *)
(* <<"send">>, <<"end">>, <<"batch", part, total, ids, columns>>,          *)
(* <<"aged", k>> (row k was handed over longer ago than the maximum wait), *)
(* <<"cancel">>, <<"close">>.  cols[i] are the columns of row i.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VQL_CASES)
VARIABLES c, pos, sent, got, part, last, ended, cancelled, closed

C == Cases[c]
B == INSTANCE Batch WITH N <- C.n, Max <- C.max

Init == c \in 1..Len(Cases) /\ pos = 1 /\ B!Init

\* The payload and its description.
Holds(ev) ==
  LET ids == ev[4] n == Len(ids)
  IN /\ ev[3] = n
     /\ \A j \in 1..n : ids[j] = got + j
     /\ ev[5] = IF n = 0 THEN <<>> ELSE C.cols[got + 1]

Event ==
  LET ev == C.events[pos]
  IN CASE ev[1] = "send" -> B!Send
       [] ev[1] = "end" -> B!End
       [] ev[1] = "batch" -> B!Receive(ev[2], Len(ev[4])) /\ Holds(ev)
       [] ev[1] = "aged" -> (got >= ev[2] \/ cancelled) /\ UNCHANGED <<sent, got, part, last, ended, cancelled, closed>>
       [] ev[1] = "cancel" -> B!Cancel
       [] ev[1] = "close" -> B!Close

Step == pos <= Len(C.events) /\ pos' = pos + 1 /\ UNCHANGED c /\ Event
Accept == pos = Len(C.events) + 1 /\ closed /\ C.err = "" /\ C.leak = 0

Finish ==
  /\ pos < 1000000
  /\ ~ENABLED Step
  /\ IF Accept THEN TRUE
     ELSE PrintT("MISMATCH " \o ToJson([id |-> C.id, verdict |->
            IF C.err # "" THEN "error"
            ELSE IF pos <= Len(C.events) THEN C.events[pos][1]
            ELSE IF ~closed THEN "not closed" ELSE "leak", at |-> pos]))
  /\ pos' = 1000000
  /\ UNCHANGED <<c, sent, got, part, last, ended, cancelled, closed>>

Next == Step \/ Finish
Spec == Init /\ [][Next]_<<c, pos, sent, got, part, last, ended, cancelled, closed>>
=============================================================================
