-------------------------------- MODULE ArgImpl --------------------------------
(***************************************************************************)
(* Extraction as it is implemented: field by field, converting as it goes, *)
(* stopping at the first error, then looking for arguments no field used.  *)
(* Whatever the fields and arguments, the outcome is what ArgRules.tla     *)
(* demands, and no argument is evaluated twice.                            *)
(***************************************************************************)
EXTENDS ArgRules

CONSTANT MaxFields
Types == {"any", "lazy", "query", "int", "string", "[]string", "dict", "untagged"}
FieldNames == <<"a", "b", "c">>
Values == {Null, IntV(1), StrV("x"), ArrV(<<StrV("y")>>), DictV(<<<<"m", IntV(2)>>>>)}
ArgNames == {"a", "b", "c", "z"}

FieldSeqs == UNION {[1..n -> Types \X BOOLEAN] : n \in 0..MaxFields}
Fields0(f) == [j \in DOMAIN f |-> <<FieldNames[j], f[j][1], f[j][2]>>]
\* At most one argument differs from <<"value", 1>>: conversions do not interact.
ArgSets ==
  {[n \in ns |-> IF n = odd THEN x ELSE <<"value", IntV(1)>>] :
      ns \in SUBSET ArgNames, odd \in ArgNames,
      x \in {<<"value", v>> : v \in Values} \union {<<"query", ArrV(<<>>)>>}}
RECURSIVE AsSeq(_, _)
AsSeq(f, names) == IF names = {} THEN <<>>
                   ELSE LET n == CHOOSE n \in names : TRUE
                        IN <<<<n, f[n][1], f[n][2], TRUE>>>> \o AsSeq(f, names \ {n})

VARIABLES fields, args, kw, at, used, target, err, evals, done
vars == <<fields, args, kw, at, used, target, err, evals, done>>

Init ==
  /\ \E f \in FieldSeqs : fields = Fields0(f)
  /\ \E a \in ArgSets : args = AsSeq(a, DOMAIN a)
  /\ kw \in BOOLEAN
  /\ at = 1 /\ used = {} /\ target = [j \in 1..Len(fields) |-> <<"initial">>]
  /\ err = "" /\ evals = [n \in ArgNames |-> 0] /\ done = FALSE

Fail(name) == err' = name /\ done' = TRUE /\ UNCHANGED <<fields, args, kw, at, used, target>>

Field ==
  /\ ~done /\ at <= Len(fields)
  /\ LET f == fields[at]
     IN IF f[2] = "untagged"
        THEN at' = at + 1 /\ UNCHANGED <<fields, args, kw, used, target, err, evals, done>>
        ELSE IF ~Passed(args, f[1])
        THEN IF f[3] THEN Fail(f[1]) /\ UNCHANGED evals
             ELSE at' = at + 1 /\ UNCHANGED <<fields, args, kw, used, target, err, evals, done>>
        ELSE LET a == ArgOf(args, f[1])
                 v == ConvertArg(f[2], a)
             IN /\ evals' = IF PassedOn(f[2], a) THEN evals ELSE [evals EXCEPT ![f[1]] = @ + 1]
                /\ IF v[1] = "bad" THEN Fail(f[1])
                   ELSE /\ at' = at + 1 /\ used' = used \union {f[1]}
                        /\ target' = [target EXCEPT ![at] = v]
                        /\ UNCHANGED <<fields, args, kw, err, done>>

Rest ==
  /\ ~done /\ at > Len(fields)
  /\ UNCHANGED <<fields, args, kw, at, used, target>>
  /\ IF Cardinality(used) = Len(args) THEN done' = TRUE /\ UNCHANGED <<err, evals>>
     ELSE LET o == {j \in 1..Len(args) : args[j][1] \notin used}
          IN IF kw THEN /\ evals' = [n \in ArgNames |-> IF \E j \in o : args[j][1] = n THEN evals[n] + 1 ELSE evals[n]]
                        /\ done' = TRUE /\ UNCHANGED err
             ELSE /\ err' = args[CHOOSE j \in o : \A k \in o : j <= k][1]
                  /\ done' = TRUE /\ UNCHANGED evals

Next == Field \/ Rest
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Outcome ==
  done =>
    LET g == Guilty(fields, args, kw)
    IN /\ (err = "") = (g = {})
       /\ err # "" => err \in g
       /\ err = "" => \A j \in 1..Len(fields) :
            IF fields[j][2] = "untagged" \/ ~Passed(args, fields[j][1]) THEN target[j] = <<"initial">>
            ELSE target[j] = Conversion(fields[j], args)
Once == \A n \in ArgNames : evals[n] <= 1
Lazily == \A j \in Declared(fields) :
            Passed(args, fields[j][1]) /\ PassedOn(fields[j][2], ArgOf(args, fields[j][1])) => evals[fields[j][1]] = 0
Ends == <>done
================================================================================
