-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* What a user of foreach(row, query, workers) can observe: evaluations of *)
(* the query begin and end, the rows they emit arrive, the output closes.  *)
(*                                                                         *)
(* One evaluation per row, never more than the given number at a time, all *)
(* rows of every evaluation arrive once and in its order.  PoolImpl.tla    *)
(* (the goroutines and channels of the implementation) refines this, and   *)
(* PoolCheck.tla checks that recorded runs of the implementation are       *)
(* behaviours of it.                                                       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

\* Parameters of the run; they never change.
VARIABLES N,        \* rows of the row source
          W,        \* workers
          Emits     \* Emits[i]: how many rows evaluation i emits

VARIABLES started, ended,   \* sets of evaluations
          got,              \* got[i]: rows of evaluation i received
          closed, cancelled
vars == <<started, ended, got, closed, cancelled>>

Rows == 1..N
Running == started \ ended

Init == /\ started = {} /\ ended = {}
        /\ got = [i \in Rows |-> 0]
        /\ closed = FALSE /\ cancelled = FALSE

\* A single worker takes the rows in order, one after the other.
Start(i) ==
  /\ i \in Rows \ started
  /\ cancelled \/ /\ Cardinality(Running) < W
                  /\ W = 1 => started = 1..(i - 1)
  /\ ~closed
  /\ started' = started \union {i}
  /\ UNCHANGED <<ended, got, closed, cancelled>>

End(i) ==
  /\ i \in Running
  /\ ended' = ended \union {i}
  /\ UNCHANGED <<started, got, closed, cancelled>>

\* The k-th row of evaluation i arrives.
Recv(i, k) ==
  /\ i \in started
  /\ ~closed
  /\ k = got[i] + 1 /\ k <= Emits[i]
  /\ cancelled \/ (W = 1 => \A j \in 1..(i - 1) : got[j] = Emits[j])
  /\ got' = [got EXCEPT ![i] = k]
  /\ UNCHANGED <<started, ended, closed, cancelled>>

Cancel ==
  /\ ~cancelled
  /\ cancelled' = TRUE
  /\ UNCHANGED <<started, ended, got, closed>>

Close ==
  /\ ~closed
  /\ cancelled \/ (ended = Rows /\ \A i \in Rows : got[i] = Emits[i])
  /\ closed' = TRUE
  /\ UNCHANGED <<started, ended, got, cancelled>>

\* After a cancellation evaluations wind down and rows may be dropped; those of
\* one evaluation that do arrive are still its first ones, in order.
Next == \/ \E i \in Rows : Start(i) \/ End(i) \/ \E k \in 1..Emits[i] : Recv(i, k)
        \/ Cancel \/ Close

Spec == Init /\ [][Next]_vars

Bounded == cancelled \/ Cardinality(Running) <= W
=============================================================================
