------------------------------ MODULE PoolCheck ------------------------------
(***************************************************************************)
(* Recorded runs of foreach are behaviours of Pool.tla.  A record has the  *)
(* parameters and the events in the order they were observed:              *)
(* <<"start", i>>, <<"end", i>>, <<"recv", i, k>>, <<"cancel">>, <<"close">>.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VQL_CASES)
VARIABLES c, pos, started, ended, got, closed, cancelled

C == Cases[c]
P == INSTANCE Pool WITH N <- C.n, W <- C.w, Emits <- C.emits

Init == /\ c \in 1..Len(Cases) /\ pos = 1
        /\ P!Init

Event ==
  LET ev == C.events[pos]
  IN CASE ev[1] = "start" -> P!Start(ev[2])
       [] ev[1] = "end" -> P!End(ev[2])
       [] ev[1] = "recv" -> P!Recv(ev[2], ev[3])
       [] ev[1] = "cancel" -> P!Cancel
       [] ev[1] = "close" -> P!Close

Step == pos <= Len(C.events) /\ pos' = pos + 1 /\ UNCHANGED c /\ Event

\* At the end the output is closed and every goroutine gone.
Accept == pos = Len(C.events) + 1 /\ closed /\ C.err = "" /\ C.leak = 0 /\ started = ended

Finish ==
  /\ pos < 1000000
  /\ ~ENABLED Step
  /\ IF Accept THEN TRUE
     ELSE PrintT("MISMATCH " \o ToJson([id |-> C.id, verdict |->
            IF C.err # "" THEN "error"
            ELSE IF pos <= Len(C.events) THEN C.events[pos][1]
            ELSE IF ~closed THEN "not closed" ELSE "leak", at |-> pos]))
  /\ pos' = 1000000
  /\ UNCHANGED <<c, started, ended, got, closed, cancelled>>

Next == Step \/ Finish
Spec == Init /\ [][Next]_<<c, pos, started, ended, got, closed, cancelled>>
=============================================================================
