------------------------------ MODULE SaveImpl ------------------------------
(***************************************************************************)
(* Saving a scope and restoring it, as scope/marshal.go and marshal.go do  *)
(* it.  A scope is a stack of frames which bind names; the innermost       *)
(* binding counts.  A name is bound to plain data, to NULL, to a           *)
(* definition (an expression which refers to other names and is evaluated  *)
(* where it is used), or to what the host put there ("$..."), which is not *)
(* saved.  The items of the saved form are restored one by one in any      *)
(* order: definitions are run as statements, data is collected and becomes *)
(* the innermost frame in the end.  In the end every name which was saved  *)
(* must mean what it meant.                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Names, MaxFrames, MaxOps

None == <<"none">>
Null == <<"null">>
Data == {<<"data", 1>>, <<"data", 2>>}
Defs == {<<"def", n, p>> : n \in Names, p \in {"plain", "default"}}
Host == <<"host">>
Bound == Data \union {Null, Host} \union Defs
Empty == [n \in Names |-> None]

VARIABLES frames, ops, saved, todo, fresh, env, phase
vars == <<frames, ops, saved, todo, fresh, env, phase>>

RECURSIVE Resolve(_, _)
Resolve(fs, n) ==
  IF fs = <<>> THEN None
  ELSE IF fs[Len(fs)][n] # None THEN fs[Len(fs)][n]
  ELSE Resolve(SubSeq(fs, 1, Len(fs) - 1), n)

\* What a reference gives; definitions which refer to each other in a circle
\* are cut off.  What a name is that is not bound is NULL.
RECURSIVE Eval(_, _, _)
Eval(fs, n, fuel) ==
  LET b == Resolve(fs, n)
  IN IF b[1] = "none" THEN <<"unbound">>
     ELSE IF b[1] # "def" THEN b
     ELSE IF fuel = 0 THEN <<"deep">>
     ELSE <<b[3], Eval(fs, b[2], fuel - 1)>>

Init == /\ frames = <<Empty>> /\ ops = 0 /\ saved = {} /\ todo = {} /\ fresh = <<Empty>>
        /\ env = Empty /\ phase = "run"

\* LET n = .. or <= .., or the host binds it.
Bind(n, b) ==
  /\ phase = "run" /\ ops < MaxOps
  /\ frames' = IF Len(frames) < MaxFrames THEN Append(frames, [Empty EXCEPT ![n] = b])
               ELSE [frames EXCEPT ![Len(frames)][n] = b]
  /\ ops' = ops + 1
  /\ UNCHANGED <<saved, todo, fresh, env, phase>>

Save ==
  /\ phase = "run"
  /\ LET known == {n \in Names : Resolve(frames, n) \notin {None, Host}}
         items == {<<n, Resolve(frames, n)>> : n \in known}
     IN saved' = items /\ todo' = items
  /\ phase' = "restore"
  /\ UNCHANGED <<frames, ops, fresh, env>>

RestoreOne(item) ==
  /\ phase = "restore" /\ item \in todo
  /\ todo' = todo \ {item}
  /\ IF item[2][1] = "def"
     THEN /\ fresh' = Append(fresh, [Empty EXCEPT ![item[1]] = item[2]])
          /\ UNCHANGED env
     ELSE /\ env' = [env EXCEPT ![item[1]] = item[2]]
          /\ UNCHANGED fresh
  /\ UNCHANGED <<frames, ops, saved, phase>>

Finish ==
  /\ phase = "restore" /\ todo = {}
  /\ fresh' = Append(fresh, env)
  /\ phase' = "done"
  /\ UNCHANGED <<frames, ops, saved, todo, env>>

\* A restored scope is used, and may be saved again.
Again ==
  /\ phase = "done" /\ ops < MaxOps
  /\ frames' = fresh /\ fresh' = <<Empty>> /\ env' = Empty /\ saved' = {}
  /\ phase' = "run"
  /\ UNCHANGED <<ops, todo>>

Next == \/ \E n \in Names, b \in Bound : Bind(n, b)
        \/ Save \/ Finish \/ Again
        \/ \E item \in todo : RestoreOne(item)
Spec == Init /\ [][Next]_vars

\* Whether what n means depends on what was not saved.
RECURSIVE OnHost(_, _, _)
OnHost(fs, n, fuel) ==
  LET b == Resolve(fs, n)
  IN b = Host \/ (b[1] = "def" /\ fuel > 0 /\ OnHost(fs, b[2], fuel - 1))

Fuel == Cardinality(Names) + 1
SameMeaning ==
  phase = "done" =>
    \A n \in Names : OnHost(frames, n, Fuel) \/ Eval(fresh, n, Fuel) = Eval(frames, n, Fuel)
\* What was not bound is not bound, data is not made a definition.
SameKind ==
  phase = "done" =>
    \A n \in Names : Resolve(frames, n) # Host => Resolve(fresh, n)[1] = Resolve(frames, n)[1]
=============================================================================
