------------------------------ MODULE PoolImpl ------------------------------
(***************************************************************************)
(* The worker pool of plugins/foreach.go: a feeder goroutine hands one     *)
(* scope per row over an unbuffered channel to W workers; each runs the    *)
(* query (a producer goroutine with its own unbuffered channel) and relays *)
(* its rows to the unbuffered output channel.  Every blocking operation is *)
(* a select with the cancellation of the context.                          *)
(*                                                                         *)
(* Checked: it refines Pool.tla, it does not deadlock, and it ends: when   *)
(* the reader keeps reading or cancels, every goroutine exits.             *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS N, W, Emits, MayCancel

EmitsC == [i \in 1..N |-> CASE i = 1 -> 2 [] i = 2 -> 0 [] OTHER -> 1]
Rows == 1..N
Workers == 1..W

VARIABLES feeder,      \* [pc, i]: "row" (about to take row i), "send", "wait" (closing the pool), "done"
          chClosed,
          worker,      \* [pc, i, k]: "idle", "relay" (waiting for a row of the query), "out" (row k at the output), "done"
          prod,        \* prod[i]: [pc, k]: "none", "send" (row k), "closed"
          ended, started, got, closed, cancelled

vars == <<feeder, chClosed, worker, prod, ended, started, got, closed, cancelled>>

Init ==
  /\ feeder = [pc |-> "row", i |-> 1]
  /\ chClosed = FALSE
  /\ worker = [w \in Workers |-> [pc |-> "idle", i |-> 0, k |-> 0]]
  /\ prod = [i \in Rows |-> [pc |-> "none", k |-> 0]]
  /\ ended = {} /\ started = {}
  /\ got = [i \in Rows |-> 0]
  /\ closed = FALSE /\ cancelled = FALSE

\* ---- the feeder
FeedNext ==
  /\ feeder.pc = "row"
  /\ feeder' = IF feeder.i > N THEN [feeder EXCEPT !.pc = "wait"] ELSE [feeder EXCEPT !.pc = "send"]
  /\ chClosed' = (chClosed \/ feeder.i > N)
  /\ UNCHANGED <<worker, prod, ended, started, got, closed, cancelled>>

\* The row source is gone after a cancellation.
FeedStop ==
  /\ cancelled /\ feeder.pc \in {"row", "send"}
  /\ feeder' = IF feeder.pc = "send" THEN [pc |-> "row", i |-> feeder.i + 1]
               ELSE [feeder EXCEPT !.pc = "wait"]
  /\ chClosed' = (chClosed \/ feeder.pc = "row")
  /\ UNCHANGED <<worker, prod, ended, started, got, closed, cancelled>>

FeedDone ==
  /\ feeder.pc = "wait"
  /\ \A w \in Workers : worker[w].pc = "done"
  /\ feeder' = [feeder EXCEPT !.pc = "done"]
  /\ closed' = TRUE
  /\ UNCHANGED <<chClosed, worker, prod, ended, started, got, cancelled>>

\* ---- the workers
Take(w) ==         \* the scope changes hands, the query begins
  /\ feeder.pc = "send" /\ worker[w].pc = "idle"
  /\ LET i == feeder.i IN
     /\ feeder' = [pc |-> "row", i |-> i + 1]
     /\ worker' = [worker EXCEPT ![w] = [pc |-> "relay", i |-> i, k |-> 0]]
     /\ prod' = [prod EXCEPT ![i] = [pc |-> "send", k |-> 1]]
     /\ started' = started \union {i}
  /\ UNCHANGED <<chClosed, ended, got, closed, cancelled>>

Quit(w) ==         \* the pool is closed or the context cancelled
  /\ worker[w].pc = "idle"
  /\ chClosed \/ cancelled
  /\ worker' = [worker EXCEPT ![w].pc = "done"]
  /\ UNCHANGED <<feeder, chClosed, prod, ended, started, got, closed, cancelled>>

Relay(w) ==        \* a row changes hands from the query to the worker
  /\ worker[w].pc = "relay"
  /\ LET i == worker[w].i IN
     /\ prod[i].pc = "send" /\ prod[i].k <= Emits[i]
     /\ prod' = [prod EXCEPT ![i].k = @ + 1]
     /\ worker' = [worker EXCEPT ![w].pc = "out", ![w].k = prod[i].k]
  /\ UNCHANGED <<feeder, chClosed, ended, started, got, closed, cancelled>>

Out(w) ==          \* the reader receives it
  /\ worker[w].pc = "out"
  /\ LET i == worker[w].i IN got' = [got EXCEPT ![i] = worker[w].k]
  /\ worker' = [worker EXCEPT ![w].pc = "relay"]
  /\ UNCHANGED <<feeder, chClosed, prod, ended, started, closed, cancelled>>

Finish(w) ==       \* the query's channel is closed
  /\ worker[w].pc = "relay" /\ prod[worker[w].i].pc = "closed"
  /\ worker' = [worker EXCEPT ![w].pc = "idle"]
  /\ UNCHANGED <<feeder, chClosed, prod, ended, started, got, closed, cancelled>>

Abandon(w) ==      \* cancelled in the middle of a query
  /\ cancelled /\ worker[w].pc \in {"relay", "out"}
  /\ worker' = [worker EXCEPT ![w].pc = "idle"]
  /\ UNCHANGED <<feeder, chClosed, prod, ended, started, got, closed, cancelled>>

\* ---- the queries
ProdEnd(i) ==
  /\ prod[i].pc = "send" /\ (prod[i].k > Emits[i] \/ cancelled)
  /\ prod' = [prod EXCEPT ![i].pc = "closed"]
  /\ ended' = ended \union {i}
  /\ UNCHANGED <<feeder, chClosed, worker, started, got, closed, cancelled>>

Cancel ==
  /\ MayCancel /\ ~cancelled /\ cancelled' = TRUE
  /\ UNCHANGED <<feeder, chClosed, worker, prod, ended, started, got, closed>>

AllDone == /\ feeder.pc = "done" /\ closed
           /\ \A w \in Workers : worker[w].pc = "done"
           /\ \A i \in Rows : prod[i].pc # "send"

Internal == \/ FeedNext \/ FeedStop \/ FeedDone
            \/ \E w \in Workers : Take(w) \/ Quit(w) \/ Relay(w) \/ Finish(w) \/ Abandon(w)
            \/ \E i \in Rows : ProdEnd(i)
Read == \E w \in Workers : Out(w)
Next == Internal \/ Read \/ Cancel \/ (AllDone /\ UNCHANGED vars)

\* The goroutines run; the reader reads until it cancels.
Fair == /\ \A w \in Workers : SF_vars(Take(w)) /\ WF_vars(Quit(w)) /\ WF_vars(Relay(w))
                              /\ WF_vars(Finish(w)) /\ WF_vars(Abandon(w)) /\ SF_vars(Out(w) /\ ~cancelled)
        /\ \A i \in Rows : WF_vars(ProdEnd(i))
        /\ WF_vars(FeedNext) /\ WF_vars(FeedStop) /\ WF_vars(FeedDone)
Spec == Init /\ [][Next]_vars /\ Fair

Abstract == INSTANCE Pool
Refines == Abstract!Init /\ [][Abstract!Next]_Abstract!vars
Bounded == Abstract!Bounded
Complete == closed /\ ~cancelled => \A i \in Rows : got[i] = Emits[i]
Ends == <>AllDone
=============================================================================
