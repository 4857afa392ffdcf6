-------------------------------- MODULE Batch --------------------------------
(***************************************************************************)
(* What a user of GetResponseChannel can observe: the query hands over its *)
(* rows 1..N, batches of them arrive, the channel closes.                  *)
(*                                                                         *)
(* BatchImpl.tla (the goroutine of the implementation, its timer and its   *)
(* channel) refines this, and BatchCheck.tla checks that recorded runs are *)
(* behaviours of it.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* Parameters of the run; they never change.
VARIABLES N,        \* rows of the query
          Max       \* the most rows a batch may have

VARIABLES sent,     \* rows handed over by the query
          got,      \* rows received in batches
          part,     \* number of the next batch
          last,     \* an empty batch arrived: nothing follows
          ended,    \* the query has no more rows
          cancelled, closed
vars == <<sent, got, part, last, ended, cancelled, closed>>

Init == /\ sent = 0 /\ got = 0 /\ part = 0
        /\ last = FALSE /\ ended = FALSE /\ cancelled = FALSE /\ closed = FALSE

Send ==
  /\ ~ended /\ sent < N
  /\ sent' = sent + 1
  /\ UNCHANGED <<got, part, last, ended, cancelled, closed>>

End ==
  /\ ~ended
  /\ cancelled \/ sent = N
  /\ ended' = TRUE
  /\ UNCHANGED <<sent, got, part, last, cancelled, closed>>

\* The next n rows arrive.
Receive(p, n) ==
  /\ ~last /\ ~closed
  /\ p = part /\ part' = part + 1
  /\ n \in 0..Max
  /\ n = 0 => ended \/ cancelled
  /\ last' = (n = 0)
  /\ got + n <= sent
  /\ got' = got + n
  /\ UNCHANGED <<sent, ended, cancelled, closed>>

Cancel ==
  /\ ~cancelled /\ cancelled' = TRUE
  /\ UNCHANGED <<sent, got, part, last, ended, closed>>

Close ==
  /\ ~closed
  /\ cancelled \/ (ended /\ got = N)
  /\ closed' = TRUE
  /\ UNCHANGED <<sent, got, part, last, ended, cancelled>>

\* The query was silent for longer than the maximum wait.
Waited == got = sent \/ cancelled

Next == Send \/ End \/ (\E n \in 0..Max : Receive(part, n)) \/ Cancel \/ Close
Spec == Init /\ [][Next]_vars
=============================================================================
