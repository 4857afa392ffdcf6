----------------------------- MODULE ScopeCheck -----------------------------
(***************************************************************************)
(* Scopes and destructors when nothing happens at the same time, except    *)
(* that destructors copy scopes, add destructors and close scopes.  A      *)
(* recorded history must be a run of this machine, which fixes everything  *)
(* but the order in which the children of a scope are closed.              *)
(*                                                                         *)
(* Close(s): the children s has now are closed, s leaves its parent, then  *)
(* up to ten rounds: all destructors of s are taken and run in the reverse *)
(* order of registration.  With none left s is closed for good.            *)
(*                                                                         *)
(* Every scope has a destructor from its creation, so in a history one can *)
(* see which child is being closed.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VQL_CASES)
Rounds == 10

VARIABLES c, pos,
          par,      \* par[s]: parent, 0 for none
          kids,     \* kids[s]: children that were not closed
          ds,       \* ds[s]: destructors in the order of registration
          dead,     \* dead[s]: takes no more destructors
          of,       \* of[d]: scope a destructor was registered on
          stack     \* what is going on
state == <<par, kids, ds, dead, of, stack>>

Init == /\ c \in 1..Len(Cases) /\ pos = 1
        /\ par = <<>> /\ kids = <<>> /\ ds = <<>> /\ dead = <<>> /\ of = <<>> /\ stack = <<>>

Events == Cases[c].events
Ev == Events[pos]
Top == stack[Len(stack)]
SetTop(f) == [stack EXCEPT ![Len(stack)] = f]
Pop == SubSeq(stack, 1, Len(stack) - 1)

CloseFrame(s, call) == [t |-> "close", s |-> s, d |-> 0, call |-> call, pc |-> "kids",
                        todo |-> kids[s], batch |-> <<>>, round |-> 0]
RunFrame(d) == [CloseFrame(1, FALSE) EXCEPT !.t = "run", !.d = d, !.todo = {}]

\* Somebody may call an operation: the test, or a destructor.
Calling == IF stack = <<>> THEN TRUE ELSE Top.t = "run"
InClose(pc) == IF stack = <<>> THEN FALSE ELSE Top.t = "close" /\ Top.pc = pc

\* ---- events
NewScope ==
  /\ Calling /\ Ev[1] \in {"new", "copy"}
  /\ LET p == IF Ev[1] = "new" THEN 0 ELSE Ev[2]
         n == IF Ev[1] = "new" THEN Ev[2] ELSE Ev[3]
     IN /\ n = Len(par) + 1
        /\ par' = Append(par, p)
        /\ kids' = Append(IF p = 0 THEN kids ELSE [kids EXCEPT ![p] = @ \union {n}], {})
        /\ ds' = Append(ds, <<>>) /\ dead' = Append(dead, FALSE)
  /\ UNCHANGED <<of, stack>>

Add ==
  /\ Calling /\ Ev[1] = "add"
  /\ Ev[4] = ~dead[Ev[2]]
  /\ ds' = IF Ev[4] THEN [ds EXCEPT ![Ev[2]] = Append(@, Ev[3])] ELSE ds
  /\ of' = of @@ (Ev[3] :> Ev[2])
  /\ UNCHANGED <<par, kids, dead, stack>>

IsClosed ==
  /\ Calling /\ Ev[1] = "closed"
  /\ Ev[3] = dead[Ev[2]]
  /\ UNCHANGED state

Close ==
  /\ Calling /\ Ev[1] = "close"
  /\ stack' = Append(stack, CloseFrame(Ev[2], TRUE))
  /\ UNCHANGED <<par, kids, ds, dead, of>>

End ==
  /\ InClose("done") /\ Top.call /\ Ev = <<"end", Top.s>>
  /\ stack' = Pop
  /\ UNCHANGED <<par, kids, ds, dead, of>>

Run ==
  /\ InClose("rounds") /\ Top.batch # <<>>
  /\ LET b == Top.batch IN
     /\ Ev = <<"run", b[Len(b)]>>
     /\ stack' = Append(SetTop([Top EXCEPT !.batch = SubSeq(b, 1, Len(b) - 1)]), RunFrame(b[Len(b)]))
  /\ UNCHANGED <<par, kids, ds, dead, of>>

Ran ==
  /\ stack # <<>> /\ Calling /\ Ev = <<"ran", Top.d>>
  /\ stack' = Pop
  /\ UNCHANGED <<par, kids, ds, dead, of>>

\* ---- inside Close
RECURSIVE Below(_, _)
Below(x, s) == x = s \/ (par[x] # 0 /\ Below(par[x], s))

Silent(s) == ds[s] = <<>> /\ kids[s] = {}

Child ==
  /\ InClose("kids") /\ Top.todo # {}
  /\ LET quiet == {k \in Top.todo : Silent(k)}
         gone == {k \in quiet : dead[k]}
         due == IF Ev[1] = "run" /\ Ev[2] \in DOMAIN of THEN {k \in Top.todo : Below(of[Ev[2]], k)} ELSE {}
     IN \E k \in IF gone # {} THEN {CHOOSE k \in gone : TRUE}
                 ELSE IF due \union quiet # {} THEN due \union quiet ELSE Top.todo :
          stack' = Append(SetTop([Top EXCEPT !.todo = @ \ {k}]), CloseFrame(k, FALSE))
  /\ UNCHANGED <<par, kids, ds, dead, of>>

Unlink ==
  /\ InClose("kids") /\ Top.todo = {}
  /\ kids' = IF par[Top.s] = 0 THEN kids ELSE [kids EXCEPT ![par[Top.s]] = @ \ {Top.s}]
  /\ stack' = SetTop([Top EXCEPT !.pc = "rounds"])
  /\ UNCHANGED <<par, ds, dead, of>>

Round ==
  /\ InClose("rounds") /\ Top.batch = <<>>
  /\ IF Top.round = Rounds \/ ds[Top.s] = <<>>
     THEN /\ dead' = [dead EXCEPT ![Top.s] = TRUE]
          /\ stack' = SetTop([Top EXCEPT !.pc = "done"])
          /\ UNCHANGED ds
     ELSE /\ stack' = SetTop([Top EXCEPT !.batch = ds[Top.s], !.round = @ + 1])
          /\ ds' = [ds EXCEPT ![Top.s] = <<>>]
          /\ UNCHANGED dead
  /\ UNCHANGED <<par, kids, of>>

Return ==
  /\ InClose("done") /\ ~Top.call
  /\ stack' = Pop
  /\ UNCHANGED <<par, kids, ds, dead, of>>

Step ==
  /\ pos <= Len(Events)
  /\ UNCHANGED c
  /\ \/ /\ NewScope \/ Add \/ IsClosed \/ Close \/ End \/ Run \/ Ran
        /\ pos' = pos + 1
     \/ /\ Child \/ Unlink \/ Round \/ Return
        /\ UNCHANGED pos

\* Printed for every history that is one; the others are reported.
Accept == pos = Len(Events) + 1 /\ Cases[c].err = ""
Done == Accept => PrintT("OK " \o ToString(Cases[c].id))
Stuck == pos <= Len(Events) /\ ~ENABLED Step => PrintT("STUCK " \o ToJson([id |-> Cases[c].id, at |-> pos]))

Spec == Init /\ [][Step]_<<c, pos, state>>
=============================================================================
