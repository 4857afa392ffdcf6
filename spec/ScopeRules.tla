----------------------------- MODULE ScopeRules -----------------------------
(***************************************************************************)
(* What a user of scopes may rely on when several threads copy scopes, add *)
(* destructors and close scopes at the same time.  A history is a sequence *)
(* of events; an operation is between its two events:                      *)
(*   <<"copy", s, c>> .. <<"copied", c>>                                   *)
(*   <<"add", s, d>>  .. <<"added", d, ok>>                                *)
(*   <<"ask", s, k>>  .. <<"closed", k, b>>      (IsClosed)                *)
(*   <<"close", s, k>> .. <<"end", k>>                                     *)
(*   <<"run", d>>     .. <<"ran", d>>            (a destructor)            *)
(* The operators judge an event after a history summarised in h.           *)
(*                                                                         *)
(* A Close of a scope, or of an ancestor, covers the scopes that were      *)
(* certainly in its subtree when it began.  When the last Close that could *)
(* be at work on a covered scope has ended the scope is settled: it is     *)
(* closed, every destructor it accepted has run, it accepts no more.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == <<>>      \* the function with no arguments

H0 == [par |-> 1 :> 0, copied |-> {1}, before |-> 1 :> {},
       reg |-> Empty,          \* d -> [s, res, run, settled]
       ask |-> Empty,          \* k -> [s, settled]
       close |-> Empty,        \* k -> [s, cover]
       active |-> {}, ended |-> {}]

RECURSIVE Up(_, _)             \* the ancestors of s and s
Up(h, s) == IF s = 0 THEN {} ELSE {s} \union Up(h, h.par[s])

\* Closes that could reach s.
Cands(h, s) == {k \in DOMAIN h.close : h.close[k].s \in Up(h, s) /\ k \notin h.before[s]}

\* Certainly linked below s: no Close could have reached a scope between.
RECURSIVE Linked(_, _, _)
Linked(h, x, s) == \/ x = s
                   \/ /\ h.par[x] # 0
                      /\ h.par[x] = s \/ Cands(h, h.par[x]) = {}
                      /\ Linked(h, h.par[x], s)

Settled(h, s) ==
  /\ \E k \in h.ended : s \in h.close[k].cover
  /\ Cands(h, s) \intersect h.active = {}

\* Close gives up after ten rounds; so many need more than ten destructors.
Few(h, s) == Cardinality({d \in DOMAIN h.reg : h.reg[d].s = s}) <= 10

\* Every destructor accepted by a settled scope has run.
Discharged(h) ==
  \A d \in DOMAIN h.reg :
    LET r == h.reg[d] IN
    r.res = "ok" /\ Settled(h, r.s) /\ Few(h, r.s) => r.run = "ran"

Set(f, k, v) == (k :> v) @@ f

Upd(h, e) ==
  CASE e[1] = "copy" -> [h EXCEPT !.par = Set(@, e[3], e[2]), !.before = Set(@, e[3], h.ended)]
    [] e[1] = "copied" -> [h EXCEPT !.copied = @ \union {e[2]}]
    [] e[1] = "add" -> [h EXCEPT !.reg = Set(@, e[3], [s |-> e[2], res |-> "asked", run |-> "no",
                                                       settled |-> Settled(h, e[2])])]
    [] e[1] = "added" -> [h EXCEPT !.reg[e[2]].res = IF e[3] THEN "ok" ELSE "refused"]
    [] e[1] = "ask" -> [h EXCEPT !.ask = Set(@, e[3], [s |-> e[2], settled |-> Settled(h, e[2])])]
    [] e[1] = "closed" -> h
    [] e[1] = "close" -> [h EXCEPT !.close = Set(@, e[3], [s |-> e[2],
                                        cover |-> {x \in h.copied : Linked(h, x, e[2])}]),
                                   !.active = @ \union {e[3]}]
    [] e[1] = "end" -> [h EXCEPT !.active = @ \ {e[2]}, !.ended = @ \union {e[2]}]
    [] e[1] = "run" -> [h EXCEPT !.reg[e[2]].run = "running"]
    [] e[1] = "ran" -> [h EXCEPT !.reg[e[2]].run = "ran"]

Ok(h, e) ==
  CASE e[1] = "added" ->
         LET r == h.reg[e[2]] IN
         IF e[3] THEN ~r.settled /\ (Settled(h, r.s) /\ Few(h, r.s) => r.run = "ran")
         ELSE r.run = "no" /\ Cands(h, r.s) # {}
    [] e[1] = "closed" ->
         LET r == h.ask[e[2]] IN IF e[3] THEN Cands(h, r.s) # {} ELSE ~r.settled
    [] e[1] = "end" -> Discharged(Upd(h, e))
    [] e[1] = "run" ->
         LET r == h.reg[e[2]] IN
         /\ r.run = "no" /\ r.res # "refused"
         /\ Cands(h, r.s) \intersect h.active # {}
    [] e[1] = "ran" -> h.reg[e[2]].run = "running"
    [] OTHER -> TRUE
=============================================================================
