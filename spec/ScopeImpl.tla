----------------------------- MODULE ScopeImpl ------------------------------
(***************************************************************************)
(* Copy, AddDestructor, IsClosed and Close of scope/scope.go at the        *)
(* granularity of their locks, in several threads; destructors may         *)
(* register another destructor.  Every history must obey ScopeRules.tla.   *)
(*                                                                         *)
(* Atomic = FALSE is the code before the repair 3402686: Close() marked    *)
(* the scope in a step of its own after it found no more destructors, and  *)
(* AddDestructor() looked at the mark in a step of its own.  TLC shows the *)
(* lost destructor (ScopeImplOld.cfg).                                     *)
(***************************************************************************)
EXTENDS ScopeRules

CONSTANTS Threads, Ops,       \* operations per thread
          Scopes, Dtors,      \* at most so many
          Rounds, Atomic

VARIABLES kids, ds, dead,     \* the scopes
          ns, nd, nk,         \* numbers given out
          again,              \* destructors that register another
          th,                 \* th[t]: [left, stack]
          h, bad

vars == <<kids, ds, dead, ns, nd, nk, again, th, h, bad>>

Init ==
  /\ kids = [s \in 1..Scopes |-> {}] /\ ds = [s \in 1..Scopes |-> <<>>]
  /\ dead = [s \in 1..Scopes |-> FALSE]
  /\ ns = 1 /\ nd = 0 /\ nk = 0 /\ again = {}
  /\ th = [t \in Threads |-> [left |-> Ops, stack |-> <<>>]]
  /\ h = H0 /\ bad = FALSE

Stack(t) == th[t].stack
Top(t) == Stack(t)[Len(Stack(t))]
Has(t, op, pc) == IF Stack(t) = <<>> THEN FALSE ELSE Top(t).op = op /\ Top(t).pc = pc
Push(t, f) == [th EXCEPT ![t].stack = Append(@, f)]
SetTop(t, f) == [th EXCEPT ![t].stack[Len(Stack(t))] = f]
Pop(t) == [th EXCEPT ![t].stack = SubSeq(@, 1, Len(@) - 1)]
Frame(op, s, x, pc) == [op |-> op, s |-> s, x |-> x, pc |-> pc, todo |-> {}, batch |-> <<>>, round |-> 0]
At(t, pc) == [Top(t) EXCEPT !.pc = pc]

Event(e) == bad' = (bad \/ ~Ok(h, e)) /\ h' = Upd(h, e)
Quiet == UNCHANGED <<h, bad>>

\* ---- a thread calls an operation
Spend(t) == Stack(t) = <<>> /\ th[t].left > 0
Call(t, f) == th' = [th EXCEPT ![t] = [left |-> @.left - 1, stack |-> <<f>>]]

CallCopy(t, s) ==
  /\ Spend(t) /\ ns < Scopes /\ s \in h.copied
  /\ Call(t, Frame("copy", s, ns + 1, "go"))
  /\ ns' = ns + 1
  /\ Event(<<"copy", s, ns + 1>>)
  /\ UNCHANGED <<kids, ds, dead, nd, nk, again>>

CallAdd(t, s) ==
  /\ Spend(t) /\ nd < Dtors /\ s \in h.copied
  /\ Call(t, Frame("add", s, nd + 1, "go"))
  /\ nd' = nd + 1
  /\ again' \in {again, again \union {nd + 1}}
  /\ Event(<<"add", s, nd + 1>>)
  /\ UNCHANGED <<kids, ds, dead, ns, nk>>

CallClose(t, s) ==
  /\ Spend(t) /\ s \in h.copied
  /\ Call(t, Frame("close", s, nk + 1, "go"))
  /\ nk' = nk + 1
  /\ Event(<<"close", s, nk + 1>>)
  /\ UNCHANGED <<kids, ds, dead, ns, nd, again>>

CallAsk(t, s) ==
  /\ Spend(t) /\ s \in h.copied
  /\ Call(t, Frame("ask", s, nk + 1, "go"))
  /\ nk' = nk + 1
  /\ Event(<<"ask", s, nk + 1>>)
  /\ UNCHANGED <<kids, ds, dead, ns, nd, again>>

\* ---- Copy
Copy(t) ==
  /\ Has(t, "copy", "go")
  /\ kids' = [kids EXCEPT ![Top(t).s] = @ \union {Top(t).x}]
  /\ th' = SetTop(t, At(t, "ret")) /\ Quiet
  /\ UNCHANGED <<ds, dead, ns, nd, nk, again>>
CopyRet(t) ==
  /\ Has(t, "copy", "ret") /\ Event(<<"copied", Top(t).x>>) /\ th' = Pop(t)
  /\ UNCHANGED <<kids, ds, dead, ns, nd, nk, again>>

\* ---- AddDestructor
Add(t) ==
  /\ Has(t, "add", "go")
  /\ IF dead[Top(t).s] THEN th' = SetTop(t, At(t, "no")) /\ UNCHANGED ds
     ELSE IF ~Atomic THEN th' = SetTop(t, At(t, "append")) /\ UNCHANGED ds
     ELSE /\ ds' = [ds EXCEPT ![Top(t).s] = Append(@, Top(t).x)]
          /\ th' = SetTop(t, At(t, "ok"))
  /\ Quiet /\ UNCHANGED <<kids, dead, ns, nd, nk, again>>
AddAppend(t) ==
  /\ Has(t, "add", "append")
  /\ ds' = [ds EXCEPT ![Top(t).s] = Append(@, Top(t).x)]
  /\ th' = SetTop(t, At(t, "ok"))
  /\ Quiet /\ UNCHANGED <<kids, dead, ns, nd, nk, again>>
AddRet(t) ==
  /\ Has(t, "add", "ok") \/ Has(t, "add", "no")
  /\ Event(<<"added", Top(t).x, Top(t).pc = "ok">>) /\ th' = Pop(t)
  /\ UNCHANGED <<kids, ds, dead, ns, nd, nk, again>>

\* ---- IsClosed
Ask(t) ==
  /\ Has(t, "ask", "go")
  /\ th' = SetTop(t, At(t, IF dead[Top(t).s] THEN "yes" ELSE "no")) /\ Quiet
  /\ UNCHANGED <<kids, ds, dead, ns, nd, nk, again>>
AskRet(t) ==
  /\ Has(t, "ask", "yes") \/ Has(t, "ask", "no")
  /\ Event(<<"closed", Top(t).x, Top(t).pc = "yes">>) /\ th' = Pop(t)
  /\ UNCHANGED <<kids, ds, dead, ns, nd, nk, again>>

\* ---- Close
Snapshot(t) ==
  /\ Has(t, "close", "go")
  /\ th' = SetTop(t, [At(t, "kids") EXCEPT !.todo = kids[Top(t).s]]) /\ Quiet
  /\ UNCHANGED <<kids, ds, dead, ns, nd, nk, again>>
Child(t) ==
  /\ Has(t, "close", "kids") /\ Top(t).todo # {}
  /\ \E k \in Top(t).todo :
       th' = [th EXCEPT ![t].stack = Append([@ EXCEPT ![Len(@)].todo = @ \ {k}], Frame("close", k, 0, "go"))]
  /\ Quiet /\ UNCHANGED <<kids, ds, dead, ns, nd, nk, again>>
Unlink(t) ==
  /\ Has(t, "close", "kids") /\ Top(t).todo = {}
  /\ LET p == h.par[Top(t).s] IN kids' = IF p = 0 THEN kids ELSE [kids EXCEPT ![p] = @ \ {Top(t).s}]
  /\ th' = SetTop(t, At(t, "round")) /\ Quiet
  /\ UNCHANGED <<ds, dead, ns, nd, nk, again>>
Round(t) ==
  /\ Has(t, "close", "round")
  /\ LET s == Top(t).s IN
     IF Top(t).round = Rounds \/ ds[s] = <<>>
     THEN /\ th' = SetTop(t, At(t, "mark"))
          /\ dead' = [dead EXCEPT ![s] = @ \/ (Atomic /\ Top(t).round < Rounds)]
          /\ UNCHANGED ds
     ELSE /\ ds' = [ds EXCEPT ![s] = <<>>]
          /\ th' = SetTop(t, [At(t, "run") EXCEPT !.batch = ds[s], !.round = @ + 1])
          /\ UNCHANGED dead
  /\ Quiet /\ UNCHANGED <<kids, ns, nd, nk, again>>
Run(t) ==
  /\ Has(t, "close", "run")
  /\ LET b == Top(t).batch
         n == Len(b)
         f == [Top(t) EXCEPT !.batch = SubSeq(b, 1, n - 1), !.pc = IF n = 1 THEN "round" ELSE "run"]
     IN /\ Event(<<"run", b[n]>>)
        /\ th' = [th EXCEPT ![t].stack = Append([@ EXCEPT ![Len(@)] = f], Frame("run", Top(t).s, b[n], "go"))]
  /\ UNCHANGED <<kids, ds, dead, ns, nd, nk, again>>
RunAgain(t) ==      \* a destructor registers another
  /\ Has(t, "run", "go")
  /\ IF Top(t).x \in again /\ nd < Dtors
     THEN /\ th' = [th EXCEPT ![t].stack = Append([@ EXCEPT ![Len(@)].pc = "ret"], Frame("add", Top(t).s, nd + 1, "go"))]
          /\ nd' = nd + 1
          /\ Event(<<"add", Top(t).s, nd + 1>>)
     ELSE th' = SetTop(t, At(t, "ret")) /\ Quiet /\ UNCHANGED nd
  /\ UNCHANGED <<kids, ds, dead, ns, nk, again>>
RunRet(t) ==
  /\ Has(t, "run", "ret") /\ Event(<<"ran", Top(t).x>>) /\ th' = Pop(t)
  /\ UNCHANGED <<kids, ds, dead, ns, nd, nk, again>>
Mark(t) ==
  /\ Has(t, "close", "mark")
  /\ dead' = [dead EXCEPT ![Top(t).s] = TRUE]
  /\ th' = SetTop(t, At(t, "ret")) /\ Quiet
  /\ UNCHANGED <<kids, ds, ns, nd, nk, again>>
CloseRet(t) ==
  /\ Has(t, "close", "ret") /\ th' = Pop(t)
  /\ IF Top(t).x = 0 THEN Quiet ELSE Event(<<"end", Top(t).x>>)
  /\ UNCHANGED <<kids, ds, dead, ns, nd, nk, again>>

Done == (\A t \in Threads : Stack(t) = <<>>) /\ UNCHANGED vars

Next ==
  \/ \E t \in Threads :
       \/ \E s \in 1..Scopes : CallCopy(t, s) \/ CallAdd(t, s) \/ CallClose(t, s) \/ CallAsk(t, s)
       \/ Copy(t) \/ CopyRet(t) \/ Add(t) \/ AddAppend(t) \/ AddRet(t) \/ Ask(t) \/ AskRet(t)
       \/ Snapshot(t) \/ Child(t) \/ Unlink(t) \/ Round(t) \/ Run(t) \/ RunAgain(t) \/ RunRet(t)
       \/ Mark(t) \/ CloseRet(t)
  \/ Done

Spec == Init /\ [][Next]_vars

Obeys == ~bad
Sym == Permutations(Threads)
=============================================================================
