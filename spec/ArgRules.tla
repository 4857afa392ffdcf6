------------------------------- MODULE ArgRules -------------------------------
(***************************************************************************)
(* What extracting the arguments of a call into a struct of declared       *)
(* fields must do.                                                         *)
(*                                                                         *)
(*   fields  sequence of <<name, type, required>>; type "untagged" is a    *)
(*           struct member which is not an argument                        *)
(*   args    sequence of <<name, kind, value, counted>>; kind "value", or  *)
(*           "query" or "lazyquery" with the rows as the value: a query,   *)
(*           an expression which gives a query                             *)
(*   kw      other arguments are allowed, and are handed over as a dict    *)
(*                                                                         *)
(* Conversions are <<"ok", value>>, <<"bad">> or, where nothing is         *)
(* promised, <<"open">>; <<"some">> within a value is anything.            *)
(***************************************************************************)
EXTENDS VQLValues

Ok(v) == <<"ok", v>>
Bad == <<"bad">>
Open == <<"open">>
Some == <<"some">>

\* A value as text.
Text(v) ==
  CASE K(v) = "str" -> v
    [] K(v) = "int" -> StrV(ToString(v[2]))
    [] K(v) = "bool" -> StrV(IF v[2] THEN "true" ELSE "false")
    [] OTHER -> Some

\* An element of a list of strings: a dict with one member stands for it.
TextElem(v) ==
  IF K(v) = "dict" /\ Len(v[2]) = 1 /\ K(v[2][1][2]) = "str" THEN v[2][1][2] ELSE Text(v)

\* A value as the rows of a query.
Row(v) == IF K(v) = "dict" /\ v[2] # <<>> THEN v ELSE DictV(<<<<"_value", v>>>>)
QueryRows(v) ==
  IF K(v) = "arr"
  THEN LET es == SelectSeq(v[2], LAMBDA x : ~IsNull(x))
       IN IF \E j \in 1..Len(es) : K(es[j]) = "arr" THEN Open
          ELSE Ok(ArrV(Tuple([j \in 1..Len(es) |-> Row(es[j])])))
  ELSE IF IsNull(v) THEN Ok(ArrV(<<>>)) ELSE Ok(ArrV(<<Row(v)>>))

Convert(t, v) ==
  CASE t \in {"any", "lazyany", "lazy"} -> Ok(v)
    [] t = "query" -> QueryRows(v)
    [] t = "dict" -> IF K(v) = "dict" THEN Ok(v)
                     ELSE IF K(v) \in {"arr", "null"} THEN Open ELSE Bad
    [] t = "[]string" -> IF K(v) = "arr" THEN Ok(ArrV(Tuple([j \in 1..Len(v[2]) |-> TextElem(v[2][j])])))
                         ELSE IF IsNull(v) THEN Open ELSE Ok(ArrV(<<Text(v)>>))
    [] t = "[]any" -> IF K(v) = "arr" THEN Ok(v) ELSE IF IsNull(v) THEN Open ELSE Ok(ArrV(<<v>>))
    [] t = "[]dict" ->
         LET es == IF K(v) = "arr" THEN SelectSeq(v[2], LAMBDA x : ~IsNull(x)) ELSE <<v>>
         IN IF IsNull(v) \/ \E j \in 1..Len(es) : K(es[j]) # "dict" THEN Open ELSE Ok(ArrV(es))
    [] t \in {"string", "named"} ->
         IF IsNull(v) THEN Ok(StrV(""))
         ELSE IF K(v) = "arr" /\ Len(v[2]) = 1 /\ K(v[2][1]) = "str" THEN Ok(v[2][1])
         ELSE Ok(Text(v))
    [] t = "bool" -> Ok(BoolV(Truth(v)))
    [] t \in {"float64", "float32"} -> IF IsNum(v) THEN Ok(FltV(Num(v))) ELSE Bad
    [] t \in {"int64", "int"} -> IF IsNum(v) THEN Ok(IntV(ToInt(v))) ELSE Bad
    [] t = "uint64" -> IF ~IsNum(v) THEN Bad ELSE IF Num(v) < 0 THEN Open ELSE Ok(IntV(ToInt(v)))

\* A query which is passed on, or is the value of an expression.
ConvertArg(t, a) ==
  IF a[2] = "value" THEN Convert(t, a[3])
  ELSE IF t \in {"any", "lazyany", "lazy", "query"} THEN Ok(a[3])
  ELSE IF t \in {"float64", "float32", "int64", "int", "uint64"} THEN Bad
  ELSE Open

\* The argument is not evaluated, a query is not run.
PassedOn(t, a) ==
  \/ t \in {"lazy", "lazyany"}
  \/ t = "query" /\ a[2] # "value"
  \/ t = "any" /\ a[2] = "query"

Passed(args, name) == \E j \in 1..Len(args) : args[j][1] = name
ArgOf(args, name) == args[CHOOSE j \in 1..Len(args) : args[j][1] = name]

Declared(fields) == {j \in 1..Len(fields) : fields[j][2] # "untagged"}
Names(fields) == {fields[j][1] : j \in Declared(fields)}
Others(fields, args) == SelectSeq(args, LAMBDA a : a[1] \notin Names(fields))

Missing(fields, args) == {fields[j][1] : j \in {k \in Declared(fields) : fields[k][3] /\ ~Passed(args, fields[k][1])}}
Conversion(f, args) == ConvertArg(f[2], ArgOf(args, f[1]))
Given(fields, args) == {j \in Declared(fields) : Passed(args, fields[j][1])}
BadOnes(fields, args) == {fields[j][1] : j \in {k \in Given(fields, args) : Conversion(fields[k], args) = Bad}}
OpenOnes(fields, args) == {fields[j][1] : j \in {k \in Given(fields, args) : Conversion(fields[k], args) = Open}}
Unexpected(fields, args, kw) ==
  IF kw THEN {} ELSE {args[j][1] : j \in {k \in 1..Len(args) : args[k][1] \notin Names(fields)}}

Guilty(fields, args, kw) == Missing(fields, args) \union BadOnes(fields, args) \union Unexpected(fields, args, kw)
===============================================================================
