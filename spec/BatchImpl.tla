------------------------------ MODULE BatchImpl ------------------------------
(***************************************************************************)
(* GetResponseChannel of api.go: one goroutine takes rows from the query,  *)
(* keeps them in a buffer, and sends the buffer over an unbuffered channel *)
(* when another row does not fit in it, when the timer fires, and when the *)
(* query ends or is cancelled.                                             *)
(*                                                                         *)
(* Checked: it refines Batch.tla, it ends, and every row taken is received *)
(* although the query may stay silent for ever.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS RowCount, MaxRows, MayCancel, MaySilence

VARIABLES pc,       \* "loop", "ship" (sending a full buffer with a row in hand),
                    \* "tick" (sending after the timer), "flush" (the last one), "done"
          buf, hand, sent, got, part, last, ended, cancelled, closed, silent
vars == <<pc, buf, hand, sent, got, part, last, ended, cancelled, closed, silent>>

Init == /\ pc = "loop" /\ buf = 0 /\ hand = 0 /\ sent = 0 /\ got = 0 /\ part = 0
        /\ last = FALSE /\ ended = FALSE /\ cancelled = FALSE /\ closed = FALSE
        /\ silent \in (IF MaySilence THEN 0..RowCount + 1 ELSE {RowCount + 1})

\* silent: the number of the row the query never produces.
Row ==
  /\ pc = "loop" /\ ~ended /\ sent < RowCount /\ sent + 1 # silent
  /\ sent' = sent + 1
  /\ IF buf >= MaxRows THEN pc' = "ship" /\ hand' = 1 /\ buf' = buf
     ELSE buf' = buf + 1 /\ UNCHANGED <<pc, hand>>
  /\ UNCHANGED <<got, part, last, ended, cancelled, closed, silent>>

\* The pipeline takes time to notice a cancellation.
QueryEnd ==
  /\ ~ended
  /\ cancelled \/ sent = RowCount
  /\ ended' = TRUE
  /\ UNCHANGED <<pc, buf, hand, sent, got, part, last, cancelled, closed, silent>>

Done ==
  /\ pc = "loop" /\ (ended \/ cancelled)
  /\ pc' = "flush"
  /\ UNCHANGED <<buf, hand, sent, got, part, last, ended, cancelled, closed, silent>>

Timer ==
  /\ pc = "loop" /\ buf > 0
  /\ pc' = "tick"
  /\ UNCHANGED <<buf, hand, sent, got, part, last, ended, cancelled, closed, silent>>

Read ==
  /\ pc \in {"ship", "tick", "flush"}
  /\ got' = got + buf /\ part' = part + 1 /\ last' = (buf = 0)
  /\ buf' = hand /\ hand' = 0
  /\ pc' = IF pc = "flush" THEN "close" ELSE "loop"
  /\ UNCHANGED <<sent, ended, cancelled, closed, silent>>

CloseIt ==
  /\ pc = "close" /\ pc' = "done" /\ closed' = TRUE
  /\ UNCHANGED <<buf, hand, sent, got, part, last, ended, cancelled, silent>>

Cancel ==
  /\ MayCancel /\ ~cancelled /\ cancelled' = TRUE
  /\ UNCHANGED <<pc, buf, hand, sent, got, part, last, ended, closed, silent>>

Stuck == pc = "loop" /\ sent + 1 = silent /\ ~cancelled
Next == Row \/ QueryEnd \/ Done \/ Timer \/ Read \/ CloseIt \/ Cancel
        \/ ((pc = "done" \/ Stuck) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
        /\ WF_vars(Row) /\ WF_vars(QueryEnd) /\ SF_vars(Done) /\ SF_vars(Timer) /\ WF_vars(Read) /\ WF_vars(CloseIt)

Abstract == INSTANCE Batch WITH N <- RowCount, Max <- MaxRows
Refines == Abstract!Init /\ [][Abstract!Next]_Abstract!vars
Complete == closed /\ ~cancelled => got = RowCount
Full == buf <= MaxRows
Ends == (silent > RowCount \/ cancelled) ~> closed
Delivered == \A k \in 1..RowCount : (sent >= k) ~> (got >= k)
=============================================================================
