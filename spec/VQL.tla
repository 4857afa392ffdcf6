--------------------------------- MODULE VQL ---------------------------------
(***************************************************************************)
(* Operational semantics of VQL: expressions, scopes, lazy rows, the       *)
(* SELECT pipeline, GROUP BY and aggregation contexts, LET definitions and *)
(* calls, and the built in row sources.                                    *)
(*                                                                         *)
(* The machine state st has                                                *)
(*   u     something outside the modelled domain happened: no prediction   *)
(*   log   the events (calls of the probe function, of the table plugin)   *)
(*   trunc evaluation was cut short by a LIMIT or a truth test: how much   *)
(*         of log the implementation has produced when it notices is open  *)
(*   part  some events of log need not happen                              *)
(*   ex    the explainer is told of the rows                              *)
(*   short a LIMIT was not reached                                         *)
(*   det   depth of queries run by an operator; dets: their events         *)
(*   agg   accumulators: <<context, call site>> -> value                   *)
(*   taint accumulators whose value depends on how far a cut short         *)
(*         pipeline had run                                                *)
(*   nctx  number of aggregation contexts created                          *)
(*   unord number of foreach with several workers: their rows come in any   *)
(*         interleaving                                                    *)
(*   heap  lazy rows: [cols, sc, cache]                                    *)
(* A scope sc has the stack of variable rows sc.vars (innermost last) and  *)
(* the aggregation context sc.agg its expressions accumulate in;           *)
(* sc.depth counts the references to LET definitions it is nested in, and  *)
(* sc.cut is what references beyond a depth give.                          *)
(***************************************************************************)
EXTENDS VQLValues
LOCAL INSTANCE SequencesExt

CONSTANT Tables        \* function: table name -> sequence of rows (dict values)

InitSt == [u |-> FALSE, ties |-> FALSE, unord |-> 0, log |-> <<>>, trunc |-> FALSE, part |-> FALSE,
           ex |-> FALSE, det |-> 0, short |-> FALSE, dets |-> {}, agg |-> <<>>, taint |-> {}, nctx |-> 1, heap |-> <<>>]

Event(id, v, st) == [st EXCEPT !.log = Append(@, <<id, v>>),
                               !.dets = IF st.det > 0 THEN @ \union {id} ELSE @]
R(v, st) == [v |-> v, st |-> st]
RowsR(rows, st) == [rows |-> rows, st |-> st]
Found(p, v, st) == [p |-> p, v |-> v, st |-> st]

Mark(v, st) == IF IsUndef(v) THEN [st EXCEPT !.u = TRUE] ELSE st
RU(v, st) == R(v, Mark(v, st))

NewCtx(st) == [st EXCEPT !.nctx = @ + 1]

\* What a value looks like from outside.
RECURSIVE Norm(_)
Norm(v) ==
  CASE K(v) \in {"arr", "rows"} -> ArrV(Tuple([i \in 1..Len(v[2]) |-> Norm(v[2][i])]))
    [] K(v) = "dict" -> DictV(Tuple([i \in 1..Len(v[2]) |-> <<v[2][i][1], Norm(v[2][i][2])>>]))
    [] K(v) \in {"null", "bool", "int", "flt", "str", "undef"} -> v
    [] OTHER -> <<"other">>

\* Passing a value through a lazily evaluated argument: a materialized
\* query becomes a plain array, queries and everything else pass unchanged.
Delazy(v) == IF K(v) = "rows" THEN ArrV(v[2]) ELSE v

BuiltinFunctions == {"probe", "if", "dict", "len", "get", "count", "sum",
                     "min", "max", "enumerate"}
BuiltinPlugins == {"tbl", "foreach", "chain", "flatten", "range", "if", "scope"}

FirstPos(pairs, k) == CHOOSE i \in 1..Len(pairs) :
                         pairs[i][1] = k /\ \A j \in 1..(i - 1) : pairs[j][1] # k

RECURSIVE Ev(_, _, _), EvList(_, _, _, _), Lookup(_, _, _, _), Assoc(_, _, _, _),
          AssocElems(_, _, _, _, _), LazyGet(_, _, _), RunQuery(_, _, _), RunOperand(_, _, _),
          EvSel(_, _, _), BuildArgs(_, _, _, _), AddDefaults(_, _, _, _, _),
          EvFrom(_, _, _), EvCol(_, _, _), CallBuiltin(_, _, _, _, _),
          Materialize(_, _, _, _, _), BaseRows(_, _, _, _),
          GroupRows(_, _, _, _), AndTail(_, _, _, _, _), OrTail(_, _, _, _, _),
          AddTail(_, _, _, _, _), MulTail(_, _, _, _, _), TruthQ(_, _, _),
          Chain(_, _, _), Foreach(_, _, _, _, _), IterRows(_, _, _),
          FlattenRows(_, _, _), FlattenRow(_, _, _, _), FlattenCell(_, _, _, _, _),
          EvalSymbol(_, _, _), ResolvePath(_, _, _, _), LazyArg(_, _, _),
          MergeStar(_, _, _), EvDict(_, _, _, _), RunFn(_, _, _, _, _),
          MaterializeArgs(_, _, _, _), EvIndex(_, _, _)

Push(sc, v) == [sc EXCEPT !.vars = Append(@, v)]

\* A reference to a definition beyond the cut off has whatever value or rows
\* sc.cut says.
TooDeep(sc) == sc.depth >= sc.cut.depth
Deeper(sc) == [sc EXCEPT !.depth = @ + 1]
EvDef(e, sc, st) == IF TooDeep(sc) THEN R(sc.cut.val, st) ELSE Ev(e, Deeper(sc), st)

(***************************************************************************)
(* Names                                                                   *)
(***************************************************************************)
Lookup(name, sc, i, st) ==
  IF i = 0 THEN Found(FALSE, Null, st)
  ELSE LET r == Assoc(sc.vars[i], name, sc, st)
       IN IF r.p THEN r ELSE Lookup(name, sc, i - 1, r.st)

Resolve(name, sc, st) == Lookup(name, sc, Len(sc.vars), st)

Assoc(v, name, sc, st) ==
  CASE K(v) = "null" -> Found(TRUE, Null, st)
 \* A column holding a nested query without rows is an empty list or NULL.
    [] K(v) = "lrow" ->
         LET r == LazyGet(v[2], name, st)
             o == st.heap[v[2]]
         IN IF r.p /\ IsNull(r.v) /\ HasKey(o.cols, name) /\ DGet(o.cols, name)[1] = "sub"
            THEN [r EXCEPT !.st.u = TRUE] ELSE r
    [] K(v) = "dict" -> IF HasKey(v[2], name) THEN Found(TRUE, DGet(v[2], name), st)
                        ELSE Found(FALSE, Null, st)
    [] K(v) = "arr" -> AssocElems(v[2], name, sc, st, FALSE)
    [] K(v) = "rows" -> AssocElems(v[2], name, sc, st, TRUE)
    [] IsQuery(v) -> LET q == RunOperand(v, sc, st)
                     IN AssocElems(q.rows, name, sc, q.st, TRUE)
    [] K(v) = "sexpr" -> LET e == EvDef(v[2].e, sc, [st EXCEPT !.det = @ + 1])
                         IN Assoc(e.v, name, sc, [e.st EXCEPT !.det = @ - 1])
    [] OTHER -> Found(FALSE, Null, st)

\* A member of an array is the array of the elements' members; a row of a
\* query without the member counts as NULL, an array element is skipped (and
\* whether no member at all is an empty array or NULL is left open).
AssocElems(es, name, sc, st, fill) ==
  LET step(a, e) == LET r == Assoc(e, name, sc, a.st)
                    IN R(IF r.p THEN Append(a.v, r.v)
                         ELSE IF fill THEN Append(a.v, Null) ELSE a.v, r.st)
      f == FoldLeft(step, R(<<>>, st), es)
  IN Found(TRUE, ArrV(f.v), IF f.v = <<>> /\ ~fill THEN [f.st EXCEPT !.u = TRUE] ELSE f.st)

\* Lazy rows evaluate a column at the first access and remember it.
LazyGet(h, name, st) ==
  LET o == st.heap[h]
  IN IF HasKey(o.cache, name) THEN Found(TRUE, DGet(o.cache, name), st)
     ELSE IF ~HasKey(o.cols, name) THEN Found(FALSE, Null, st)
     ELSE LET r == EvCol(DGet(o.cols, name), o.sc, st)
          IN Found(TRUE, r.v,
               [r.st EXCEPT !.heap[h].cache = DSet(@, name, r.v)])

\* A column definition is <<"val", v>>, <<"expr", e>> or <<"sub", select>>.
EvCol(c, sc, st) ==
  CASE c[1] = "val" -> R(c[2], st)
    [] c[1] = "expr" ->
         LET r == Ev(c[2], sc, st)
         IN IF K(r.v) = "rows" THEN R(ArrV(r.v[2]), r.st)
            ELSE IF IsQuery(r.v)
                 THEN LET q == RunQuery(r.v, sc, r.st) IN R(<<"rows", q.rows>>, q.st)
                 ELSE r
    [] c[1] = "sub" ->
         LET q == EvSel(c[2], sc, st)
             vals == Tuple([i \in 1..Len(q.rows) |->
                        IF Len(q.rows[i][2]) = 1 THEN q.rows[i][2][1][2]
                        ELSE q.rows[i]])
         IN R(IF vals = <<>> THEN Null ELSE IF Len(vals) = 1 THEN vals[1] ELSE ArrV(vals), q.st)

(***************************************************************************)
(* Truth of a value that may be a query: does it have a row?               *)
(***************************************************************************)
TruthQ(v, sc, st) ==
  IF IsQuery(v) /\ K(v) # "rows"
  THEN LET q == RunOperand(v, sc, st)
           moved == {k \in DOMAIN q.st.agg : k \notin DOMAIN st.agg
                                             \/ q.st.agg[k] # st.agg[k]}
       IN [b |-> q.rows # <<>>,
           st |-> [q.st EXCEPT !.trunc = TRUE, !.taint = @ \union moved]]
  ELSE [b |-> Truth(v), st |-> st]

(***************************************************************************)
(* Expressions                                                             *)
(***************************************************************************)
EvList(es, sc, st, acc) ==
  IF es = <<>> THEN R(acc, st)
  ELSE LET r == Ev(Head(es), sc, st) IN EvList(Tail(es), sc, r.st, Append(acc, r.v))

\* Arguments of a call: [name, kind, payload].  kind "e" expression, "a"
\* array of expressions, "q" a query which is passed on unevaluated.
EvArg(a, sc, st) ==
  CASE a[2] = "e" -> Ev(a[3], sc, st)
    [] a[2] = "q" -> R(<<"select", a[3]>>, st)
    [] a[2] = "a" -> IF Len(a[3]) = 1 THEN Ev(a[3][1], sc, st)
                     ELSE LET r == EvList(a[3], sc, st, <<>>) IN R(ArrV(r.v), r.st)

BuildArgs(args, sc, st, acc) ==
  IF args = <<>> THEN R(acc, st)
  ELSE LET r == EvArg(Head(args), sc, st)
       IN BuildArgs(Tail(args), sc, r.st, DSet(acc, Head(args)[1], r.v))

\* params: sequence of <<name, hasDefault, arg>>
AddDefaults(params, have, sc, st, acc) ==
  IF params = <<>> THEN R(acc, st)
  ELSE LET p == Head(params)
       IN IF ~p[2] \/ HasKey(have, p[1]) THEN AddDefaults(Tail(params), have, sc, st, acc)
          ELSE LET r == EvArg(p[3], Deeper(sc), st)
               IN AddDefaults(Tail(params), have, sc, r.st, DSet(acc, p[1], r.v))

CallArgs(args, params, sc, st) ==
  LET a == BuildArgs(args, sc, st, <<>>) IN AddDefaults(params, a.v, sc, a.st, a.v)

\* Reference to a symbol value, possibly called.
RunFn(val, called, args, sc, st) ==
  CASE K(val) = "sexpr" ->
         LET st1 == IF called THEN NewCtx(st) ELSE st
             a == CallArgs(IF called THEN args ELSE <<>>, val[2].params, sc, st1)
             sub == [Push(sc, DictV(a.v)) EXCEPT
                        !.agg = IF called THEN st1.nctx ELSE sc.agg]
         IN IF TooDeep(sc) THEN R(sc.cut.val, st) ELSE EvDef(val[2].e, sub, a.st)
    [] IsQuery(val) /\ called /\ args # <<>> ->
         LET st1 == NewCtx(st)
             a == CallArgs(args, IF K(val) = "squery" THEN val[2].params ELSE <<>>, sc, st1)
         IN IF TooDeep(sc) THEN R(sc.cut.val, st)
            ELSE R(<<"callsite", val, [Push(sc, DictV(a.v)) EXCEPT !.agg = st1.nctx]>>, a.st)
    [] called -> R(Null, st)
    [] OTHER -> R(val, st)

\* In a chain of members and indexes, those after a missing one may be left
\* unevaluated.
EvIndex(e, b, sc) ==
  LET i == Ev(e[3], sc, b.st)
  IN IF IsNull(b.v) /\ e[2][1] \in {"mem", "idx", "slice"}
     THEN R(i.v, [i.st EXCEPT !.part = @ \/ i.st.log # b.st.log, !.u = @ \/ i.st.agg # b.st.agg])
     ELSE i

Ev(e, sc, st) ==
  CASE e[1] = "lit" -> R(e[2], st)
    [] e[1] = "sym" ->
         LET r == Resolve(e[2], sc, st)
         IN IF ~r.p THEN R(Null, r.st) ELSE RunFn(r.v, FALSE, <<>>, sc, r.st)
    [] e[1] = "neg" ->
         LET r == Ev(e[2], sc, st) IN R(NegV(r.v), r.st)
    [] e[1] = "call" ->       \* <<"call", site, name, args>>
         IF e[3] \in BuiltinFunctions THEN CallBuiltin(e[2], e[3], e[4], sc, st)
         ELSE LET r == Resolve(e[3], sc, st)
              IN IF ~r.p THEN R(Null, r.st) ELSE RunFn(r.v, TRUE, e[4], sc, r.st)
    [] e[1] = "mem" ->
         LET sym == IF e[2][1] = "sym" THEN 1 ELSE 0
             \* The defaults of a definition which is not called are open.
             d == IF sym = 0 THEN Null ELSE Resolve(e[2][2], sc, st).v
             open == K(d) = "sexpr" /\ \E p \in 1..Len(d[2].params) : d[2].params[p][2]
             b == Ev(e[2], sc, [st EXCEPT !.det = @ + sym, !.u = @ \/ open])
             r == Assoc(b.v, e[3], sc, [b.st EXCEPT !.det = @ - sym])
         IN R(IF r.p THEN r.v ELSE Null, r.st)
    [] e[1] = "idx" ->
         LET b == Ev(e[2], sc, st)
             i == EvIndex(e, b, sc)
         IN IF K(i.v) = "str"
            THEN LET r == Assoc(b.v, i.v[2], sc, i.st) IN R(IF r.p THEN r.v ELSE Null, r.st)
            ELSE IF IsNull(b.v) THEN R(Null, i.st)
            ELSE IF ~IsNum(i.v) THEN R(Null, IF IsQuery(b.v) THEN [i.st EXCEPT !.u = TRUE] ELSE i.st)
            ELSE IF IsQuery(b.v) /\ K(b.v) # "rows"
            THEN LET q == RunOperand(b.v, sc, i.st)
                     n == ToInt(i.v)
                 IN IF n < 0 \/ n >= Len(q.rows) THEN R(Null, [q.st EXCEPT !.u = TRUE])
                    ELSE R(q.rows[n + 1], [q.st EXCEPT !.trunc = TRUE])
            ELSE R(IndexV(b.v, ToInt(i.v)), i.st)
    [] e[1] = "slice" ->      \* <<"slice", base, hasLo, lo, hasHi, hi>>
         LET b == Ev(e[2], sc, st)
             lo == IF e[3] THEN Ev(e[4], sc, b.st) ELSE R(IntV(0), b.st)
             hi == IF e[5] THEN Ev(e[6], sc, lo.st) ELSE R(IntV(0), lo.st)
         IN IF IsQuery(b.v) /\ K(b.v) # "rows" THEN R(Null, [hi.st EXCEPT !.u = TRUE])
            ELSE IF ~IsNum(lo.v) \/ ~IsNum(hi.v) THEN R(Null, hi.st)
            ELSE R(SliceV(b.v, e[3], ToInt(lo.v), e[5], ToInt(hi.v)), hi.st)
    [] e[1] = "arr" ->
         LET r == EvList(e[2], sc, st, <<>>) IN R(ArrV(r.v), r.st)
    [] e[1] = "not" ->
         LET r == Ev(e[2], sc, st)
             t == TruthQ(r.v, sc, r.st)
         IN R(BoolV(~t.b), t.st)
    [] e[1] = "and" ->        \* <<"and", first, <<<<op, e>>, ...>>>>
         LET r == Ev(e[2], sc, st)
             t == TruthQ(r.v, sc, r.st)
         IN IF ~t.b THEN R(BoolV(FALSE), t.st) ELSE AndTail(e[3], r.v, sc, t.st, 0)
    [] e[1] = "or" ->
         LET r == Ev(e[2], sc, st)
             t == TruthQ(r.v, sc, r.st)
         IN IF t.b THEN R(r.v, t.st) ELSE OrTail(e[3], r.v, sc, t.st, 0)
    [] e[1] = "cmp" ->        \* <<"cmp", op, l, r>>
         LET l == Ev(e[3], sc, st)
             r == Ev(e[4], sc, l.st)
             st1 == IF (IsQuery(l.v) /\ e[2] # "IN") \/ IsQuery(r.v) \/ IsUndef(l.v) \/ IsUndef(r.v)
                    THEN [r.st EXCEPT !.u = TRUE] ELSE r.st
         IN R(BoolV(CASE e[2] = "IN" -> MemberV(l.v, r.v)
                      [] e[2] = "=~" -> MatchV(l.v, r.v)
                      [] OTHER -> CmpV(e[2], l.v, r.v)), st1)
    [] e[1] = "add" ->
         LET r == Ev(e[2], sc, st) IN AddTail(e[3], r.v, sc, r.st, 0)
    [] e[1] = "mul" ->
         LET r == Ev(e[2], sc, st) IN MulTail(e[3], r.v, sc, r.st, 0)

AndTail(ts, last, sc, st, d) ==
  IF ts = <<>> THEN R(last, st)
  ELSE LET r == Ev(Head(ts)[2], sc, st)
           t == TruthQ(r.v, sc, r.st)
       IN IF ~t.b THEN R(BoolV(FALSE), t.st)
          ELSE AndTail(Tail(ts), IF Head(ts)[1] = "&&" THEN r.v ELSE BoolV(TRUE), sc, t.st, d)

OrTail(ts, last, sc, st, d) ==
  IF ts = <<>> THEN R(last, st)
  ELSE LET r == Ev(Head(ts)[2], sc, st)
           t == TruthQ(r.v, sc, r.st)
       IN IF t.b THEN R(IF Head(ts)[1] = "||" THEN r.v ELSE BoolV(TRUE), t.st)
          ELSE OrTail(Tail(ts), r.v, sc, t.st, d)

QArith(a, b, st) == IF (IsQuery(a) \/ IsQuery(b)) /\ ~(K(a) = "rows" /\ K(b) = "rows")
                    THEN [st EXCEPT !.u = TRUE] ELSE st

AddTail(ts, acc, sc, st, d) ==
  IF ts = <<>> THEN R(acc, st)
  ELSE LET r == Ev(Head(ts)[2], sc, st)
           v == IF Head(ts)[1] = "+" THEN AddV(acc, r.v) ELSE SubV(acc, r.v)
       IN AddTail(Tail(ts), v, sc, Mark(v, QArith(acc, r.v, r.st)), d)

MulTail(ts, acc, sc, st, d) ==
  IF ts = <<>> THEN R(acc, st)
  ELSE LET r == Ev(Head(ts)[2], sc, st)
           v == IF Head(ts)[1] = "*" THEN MulV(acc, r.v) ELSE DivV(acc, r.v)
       IN MulTail(Tail(ts), v, sc, Mark(v, QArith(acc, r.v, r.st)), d)

(***************************************************************************)
(* Built in functions.  Arguments are evaluated only when used.            *)
(***************************************************************************)
ArgOf(args, name) == LET i == CHOOSE i \in 1..Len(args) : args[i][1] = name IN args[i]
HasArg(args, name) == \E i \in 1..Len(args) : args[i][1] = name

LazyArg(a, sc, st) ==
  LET r == EvArg(a, sc, st) IN IF a[2] = "e" THEN R(Delazy(r.v), r.st) ELSE r

\* The rows instead of a query, also within arrays.
RECURSIVE Materialized(_, _, _)
Materialized(v, sc, st) ==
  IF IsQuery(v) THEN LET q == RunQuery(v, sc, st) IN R(ArrV(q.rows), q.st)
  ELSE IF K(v) # "arr" THEN R(v, st)
  ELSE LET step(a, e) == LET r == Materialized(e, sc, a.st) IN R(Append(a.v, r.v), r.st)
           f == FoldLeft(step, R(<<>>, st), v[2])
       IN R(ArrV(f.v), f.st)

EvDict(args, sc, st, acc) ==
  IF args = <<>> THEN R(DictV(acc), st)
  ELSE LET r == LazyArg(Head(args), sc, st)
           m == Materialized(r.v, sc, r.st)
       IN EvDict(Tail(args), sc, m.st, DSet(acc, Head(args)[1], m.v))

AggGet(st, k) == st.agg[k]
AggHas(st, k) == k \in DOMAIN st.agg
AggSet(st, k, v) ==
  LET st1 == IF k \in st.taint THEN [st EXCEPT !.u = TRUE] ELSE st
  IN [st1 EXCEPT !.agg = (k :> v) @@ @]

CallBuiltin(site, name, args, sc, st) ==
  LET k == <<sc.agg, site>>
      item(f) == LazyArg(ArgOf(args, f), sc, st)
  IN
  CASE name = "probe" ->      \* probe(id, v): logs the call, gives v
         LET r == item("v")
             id == ArgOf(args, "id")[3][2][2]
         IN R(r.v, Event(id, Norm(r.v), r.st))
    [] name = "if" ->
         LET c == item("condition")
             t == TruthQ(c.v, sc, c.st)
             br == IF t.b THEN "then" ELSE "else"
         IN IF HasArg(args, br) THEN LazyArg(ArgOf(args, br), sc, t.st) ELSE R(Null, t.st)
    [] name = "dict" -> EvDict(args, sc, st, <<>>)
    [] name = "len" ->
         LET r == item("list")
         IN R(IntV(IF K(r.v) \in {"arr", "str", "dict"} THEN Len(r.v[2]) ELSE 0), r.st)
    [] name = "get" ->
         LET b == item("item")
             a == Assoc(b.v, ArgOf(args, "member")[3][2][2], sc, b.st)
         IN R(IF a.p THEN a.v ELSE Null, a.st)
    [] name = "count" ->
         LET v == IntV(1 + IF AggHas(st, k) THEN AggGet(st, k)[2] ELSE 0)
         IN R(v, AggSet(st, k, v))
    [] name = "sum" ->
         LET r == item("item")
             v == MkInt(ToInt(r.v) + IF AggHas(r.st, k) THEN AggGet(r.st, k)[2] ELSE 0)
         IN IF ~IsNum(r.v) THEN R(Null, r.st)
            ELSE RU(v, AggSet(r.st, k, IF IsUndef(v) THEN IntV(0) ELSE v))
    [] name = "min" ->
         LET r == item("item")
             v == IF AggHas(r.st, k) /\ ~LtV(r.v, AggGet(r.st, k))
                  THEN AggGet(r.st, k) ELSE r.v
         IN R(v, AggSet(r.st, k, v))
    [] name = "max" ->
         LET r == item("item")
             v == IF AggHas(r.st, k) /\ LtV(r.v, AggGet(r.st, k))
                  THEN AggGet(r.st, k) ELSE r.v
         IN R(v, AggSet(r.st, k, v))
    [] name = "enumerate" ->
         LET r == item("items")
             v == ArrV((IF AggHas(r.st, k) THEN AggGet(r.st, k)[2] ELSE <<>>) \o <<r.v>>)
         IN R(v, AggSet(r.st, k, v))

(***************************************************************************)
(* Queries                                                                 *)
(***************************************************************************)
\* Rows of a plain value used where a query is expected.
HasMembers(v) == K(v) = "dict" /\ Len(v[2]) > 0
WrapRow(v) == IF HasMembers(v) THEN v ELSE DictV(<<<<"_value", v>>>>)
WrapRows(v) ==
  IF K(v) = "arr"
  THEN LET es == SelectSeq(v[2], LAMBDA x : ~IsNull(x)) IN Tuple([i \in 1..Len(es) |-> WrapRow(es[i])])
  ELSE IF IsNull(v) THEN <<>> ELSE <<WrapRow(v)>>
ToQuery(v) == IF IsQuery(v) THEN v ELSE <<"qwrap", v>>

\* A query run by an operator.
RunOperand(v, sc, st) ==
  LET q == RunQuery(v, sc, [st EXCEPT !.det = @ + 1]) IN [q EXCEPT !.st.det = @ - 1]

RunQuery(v, sc, st) ==
  CASE K(v) = "rows" -> RowsR(v[2], st)
    [] K(v) = "select" -> EvSel(v[2], sc, st)
    [] K(v) = "squery" -> IF TooDeep(sc) THEN RowsR(sc.cut.rows, st) ELSE EvSel(v[2].q, Deeper(sc), st)
    [] K(v) = "callsite" -> RunQuery(v[2], v[3], st)
    [] K(v) = "qwrap" -> RowsR(WrapRows(v[2]), st)

\* Column list of a SELECT over one row: unique names, the first mention of
\* a name fixes its position, the last explicit definition its value.
RowMembers(row) == IF K(row) = "dict" THEN row[2] ELSE <<>>

MergeStar(cols, pairs, override) ==
  IF pairs = <<>> THEN cols
  ELSE LET p == Head(pairs)
           c == <<"val", p[2]>>
       IN MergeStar(IF HasKey(cols, p[1]) /\ ~override THEN cols ELSE DSet(cols, p[1], c),
                    Tail(pairs), override)

RECURSIVE BuildCols(_, _, _)
BuildCols(cs, row, acc) ==
  IF cs = <<>> THEN acc
  ELSE LET c == Head(cs)
       IN BuildCols(Tail(cs), row,
            CASE c[1] = "star" -> MergeStar(acc, RowMembers(row), FALSE)
              [] c[1] = "as"   -> DSet(acc, c[2], <<"expr", c[3]>>)
              [] c[1] = "sub"  -> DSet(acc, c[2], <<"sub", c[3]>>))

\* The columns of a row which is itself a list of rows are left open.
NewLazy(sel, sc, row, st) ==
  [st EXCEPT !.u = @ \/ (K(row) = "arr" /\ row[2] # <<>> /\ \E q \in 1..Len(sel.cols) : sel.cols[q][1] = "star"),
             !.heap = Append(@, [cols |-> BuildCols(sel.cols, row, <<>>),
                                 sc |-> Push(sc, row), cache |-> <<>>])]

\* All columns of lazy row h, in order.
Materialize(h, i, sc, st, acc) ==
  LET cols == st.heap[h].cols
  IN IF i > Len(cols) THEN R(DictV(acc), st)
     ELSE LET r == LazyGet(h, cols[i][1], st)
          IN Materialize(h, i + 1, sc, r.st, Append(acc, <<cols[i][1], r.v>>))

HasWhere(sel) == sel.where[1] # "none"

\* What the explainer is told.
Told(what, row, st) == IF st.ex THEN Event(what, Norm(row), st) ELSE st

\* One source row through Transform, WHERE and materialization.
BaseRow(sel, sc, acc, row) ==
  LET st1 == NewLazy(sel, sc, row, Told("#src", row, acc.st))
      h == Len(st1.heap)
      wsc == Push(Push(sc, row), <<"lrow", h>>)
      w == IF HasWhere(sel) THEN Ev(sel.where, wsc, st1) ELSE R(BoolV(TRUE), st1)
      t == TruthQ(w.v, sc, w.st)
  IN IF ~t.b THEN RowsR(acc.rows, Told("#rej", Null, t.st))
     ELSE LET m == Materialize(h, 1, sc, t.st, <<>>)
          IN RowsR(Append(acc.rows, m.v), Told("#out", m.v, m.st))

BaseRows(sel, sc, rows, st) ==
  LET step(acc, row) == BaseRow(sel, sc, acc, row) IN FoldLeft(step, RowsR(<<>>, st), rows)

\* groups: sequence of [key, ctx, row]
GroupIdx(groups, key) ==
  IF \E i \in 1..Len(groups) : groups[i].key = key
  THEN CHOOSE i \in 1..Len(groups) : groups[i].key = key ELSE 0

GroupRow(sel, sc, acc, row) ==
  LET st1 == NewLazy(sel, sc, row, Told("#src", row, acc.st))
      h == Len(st1.heap)
      wsc == Push(Push(sc, row), <<"lrow", h>>)
      w == IF HasWhere(sel) THEN Ev(sel.where, wsc, st1) ELSE R(BoolV(TRUE), st1)
      t == TruthQ(w.v, sc, w.st)
  IN IF ~t.b THEN [acc EXCEPT !.st = Told("#rej", Null, t.st)]
     ELSE LET g == IF Len(sel.group) = 1 THEN Ev(sel.group[1], wsc, t.st)
                   ELSE LET l == EvList(sel.group, wsc, t.st, <<>>)
                        IN R(ArrV(l.v), l.st)
              key == KeyForm(Norm(g.v))
              i == GroupIdx(acc.groups, key)
              st2 == IF i = 0 THEN NewCtx(g.st) ELSE g.st
              ctx == IF i = 0 THEN st2.nctx ELSE acc.groups[i].ctx
              parts == IF Len(sel.group) = 1 THEN <<g.v>> ELSE g.v[2]
              vague == \E j \in 1..Len(parts) : \/ K(parts[j]) \in {"arr", "dict", "rows"} /\ Stringy(Norm(parts[j]))
                                          \/ parts[j] = FltV(0)     \* may be a negative zero
              st3 == [st2 EXCEPT !.heap[h].sc.agg = ctx, !.u = @ \/ vague]
              m == Materialize(h, 1, sc, st3, <<>>)
              gs == IF i = 0 THEN Append(acc.groups, [key |-> key, ctx |-> ctx, row |-> m.v])
                    ELSE [acc.groups EXCEPT ![i].row = m.v]
          IN [groups |-> gs, st |-> m.st]

GroupRows(sel, sc, rows, st) ==
  LET step(acc, row) == GroupRow(sel, sc, acc, row)
  IN FoldLeft(step, [groups |-> <<>>, st |-> st], rows)

(***************************************************************************)
(* ORDER BY: NULL and missing values are smallest.                         *)
(***************************************************************************)
SortKey(row, col) == IF HasKey(row[2], col) THEN DGet(row[2], col) ELSE Null
KeyLt(a, b) == IF IsNull(b) THEN FALSE ELSE IF IsNull(a) THEN TRUE ELSE LtV(a, b)
Before(a, b, desc) == IF desc THEN KeyLt(b, a) ELSE KeyLt(a, b)

RECURSIVE InsertSorted(_, _, _, _)
InsertSorted(s, row, col, desc) ==
  IF s = <<>> THEN <<row>>
  ELSE IF Before(SortKey(row, col), SortKey(Head(s), col), desc)
       THEN <<row>> \o s
       ELSE <<Head(s)>> \o InsertSorted(Tail(s), row, col, desc)
RECURSIVE SortRows(_, _, _, _)
SortRows(rows, col, desc, acc) ==
  IF rows = <<>> THEN acc
  ELSE SortRows(Tail(rows), col, desc, InsertSorted(acc, Head(rows), col, desc))

Sortable(rows, col) ==
  LET ks == {K(SortKey(rows[i], col)) : i \in 1..Len(rows)} \ {"null"}
  IN ks \subseteq {"int", "flt", "bool"} \/ ks \subseteq {"str"}

HasTies(rows, col) ==
  \E i, j \in 1..Len(rows) :
     i < j /\ ~KeyLt(SortKey(rows[i], col), SortKey(rows[j], col))
           /\ ~KeyLt(SortKey(rows[j], col), SortKey(rows[i], col))
           /\ Norm(rows[i]) # Norm(rows[j])

\* The rows before LIMIT is applied.
FullRows(sel, sc, st) ==
  LET f == EvFrom(sel.from, sc, st)
      grouped == sel.group # <<>>
      g == GroupRows(sel, sc, f.rows, f.st)
      b == IF grouped
           THEN RowsR([i \in 1..Len(g.groups) |-> g.groups[i].row], g.st)
           ELSE BaseRows(sel, sc, f.rows, f.st)
  IN IF sel.order = "" THEN b
     ELSE IF ~Sortable(b.rows, sel.order) THEN RowsR(b.rows, [b.st EXCEPT !.u = TRUE])
     ELSE RowsR(SortRows(b.rows, sel.order, sel.desc, <<>>),
                [b.st EXCEPT !.ties = @ \/ HasTies(b.rows, sel.order)])

Take(s, n) == IF n >= Len(s) THEN s ELSE SubSeq(s, 1, n)

\* The rows of a query which is not explained, or whose EXPLAIN is known.
EvSelX(sel, sc, st) ==
  LET b == FullRows(sel, sc, st)
      blocking == sel.group # <<>> \/ sel.order # ""
      moved == {k \in DOMAIN b.st.agg : k \notin DOMAIN st.agg \/ b.st.agg[k] # st.agg[k]}
  IN IF sel.limit < 0 THEN b
     ELSE IF sel.limit > Len(b.rows) THEN RowsR(b.rows, [b.st EXCEPT !.short = TRUE])
     ELSE IF blocking /\ sel.limit > 0 THEN RowsR(Take(b.rows, sel.limit), b.st)
     ELSE RowsR(Take(b.rows, sel.limit),
                [b.st EXCEPT !.trunc = TRUE, !.taint = @ \union moved])

\* EXPLAIN covers the query and the ones evaluated for it.
EvSel(sel, sc, st) ==
  IF sel.explain /\ ~st.ex
  THEN LET r == EvSelX(sel, sc, [st EXCEPT !.ex = TRUE]) IN [r EXCEPT !.st.ex = FALSE]
  ELSE EvSelX(sel, sc, st)

(***************************************************************************)
(* Row sources                                                             *)
(***************************************************************************)
ResolvePath(path, v, sc, st) ==
  IF path = <<>> THEN Found(TRUE, v, st)
  ELSE LET r == Assoc(v, Head(path), sc, st)
       IN IF ~r.p THEN r ELSE ResolvePath(Tail(path), r.v, sc, r.st)

\* Selecting from a value.
EvalSymbol(v, sc, st) ==
  CASE K(v) = "sexpr" -> LET e == EvDef(v[2].e, sc, st)
                         IN IF TooDeep(sc) THEN EvalSymbol(e.v, sc, e.st)
                            ELSE EvalSymbol(e.v, Deeper(sc), e.st)
    [] IsQuery(v) -> RunQuery(v, sc, st)
    [] K(v) = "arr" -> RowsR(v[2], st)
    [] OTHER -> RowsR(<<v>>, st)

\* A stored query called as a source gets its query arguments materialized.
MaterializeArgs(pairs, sc, st, acc) ==
  IF pairs = <<>> THEN R(acc, st)
  ELSE LET p == Head(pairs)
       IN IF IsQuery(p[2])
          THEN LET q == RunQuery(p[2], sc, st)
               IN MaterializeArgs(Tail(pairs), sc, q.st, Append(acc, <<p[1], ArrV(q.rows)>>))
          ELSE MaterializeArgs(Tail(pairs), sc, st, Append(acc, p))

IterRows(v, sc, st) ==
  CASE IsQuery(v) -> RunQuery(v, sc, st)
    [] K(v) = "dict" -> RowsR(<<v>>, st)
    [] K(v) = "arr" ->
         LET es == SelectSeq(v[2], LAMBDA x : ~IsNull(x))
         IN RowsR(Tuple([i \in 1..Len(es) |-> IF K(es[i]) = "dict" THEN es[i]
                                        ELSE DictV(<<<<"_value", es[i]>>>>)]), st)
    [] IsNull(v) -> RowsR(<<>>, st)
    [] OTHER -> RowsR(<<DictV(<<<<"_value", v>>>>)>>, st)

Foreach(rows, q, column, sc, st) ==
  LET step(acc, x) ==
        LET a == IF column = "" THEN Found(TRUE, x, acc.st) ELSE Assoc(x, column, sc, acc.st)
            row == IF a.p THEN a.v ELSE Null
            r == IF K(q) = "none" THEN RowsR(<<row>>, a.st)
                 ELSE RunQuery(q, Push(sc, row), a.st)
        IN RowsR(acc.rows \o r.rows, r.st)
  IN FoldLeft(step, RowsR(<<>>, st), rows)

Chain(qs, sc, st) ==
  LET step(acc, q) == LET r == RunQuery(q, sc, acc.st) IN RowsR(acc.rows \o r.rows, r.st)
  IN FoldLeft(step, RowsR(<<>>, st), qs)

\* flatten: the last column varies slowest.
CellItems(rows) == Tuple([i \in 1..Len(rows) |->
   IF K(rows[i]) = "dict" /\ HasKey(rows[i][2], "_value") THEN DGet(rows[i][2], "_value")
   ELSE rows[i]])

FlattenRow(pairs, i, sc, st) ==
  IF i = 0 THEN RowsR(<<DictV(pairs)>>, st)
  ELSE LET it == IterRows(pairs[i][2], sc, st)
           items == CellItems(it.rows)
       IN IF items = <<>> THEN FlattenRow(pairs, i - 1, sc, it.st)
          ELSE FlattenCell(pairs, i, items, sc, it.st)

FlattenCell(pairs, i, items, sc, st) ==
  LET step(acc, x) == LET r == FlattenRow([pairs EXCEPT ![i] = <<@[1], x>>], i - 1, sc, acc.st)
                      IN RowsR(acc.rows \o r.rows, r.st)
  IN FoldLeft(step, RowsR(<<>>, st), items)

FlattenRows(rows, sc, st) ==
  LET step(acc, x) == LET s == [acc.st EXCEPT !.u = @ \/ (K(x) = "arr" /\ x[2] # <<>>)]
                          r == FlattenRow(RowMembers(x), Len(RowMembers(x)), sc, s)
                      IN RowsR(acc.rows \o r.rows, r.st)
  IN FoldLeft(step, RowsR(<<>>, st), rows)

RangeRows(start, end, step) ==
  IF start >= end THEN <<>>
  ELSE [i \in 1..((end - start + step - 1) \div step) |-> DictV(<<<<"_value", IntV(start + (i - 1) * step)>>>>)]

CallPlugin(name, args, sc, st) ==
  LET a == BuildArgs(args, sc, st, <<>>)
      has(f) == HasKey(a.v, f)
      val(f) == DGet(a.v, f)
  IN
  CASE name = "tbl" ->
         RowsR(Tables[val("name")[2]],
               Event("tbl:" \o val("name")[2], Null, a.st))
    [] name = "scope" -> RowsR(<<DictV(<<>>)>>, a.st)
    [] name = "chain" -> Chain(Tuple([i \in 1..Len(a.v) |-> ToQuery(a.v[i][2])]), sc, a.st)
    [] name = "if" ->
         LET t == TruthQ(val("condition"), sc, a.st)
         IN IF t.b THEN RunQuery(ToQuery(val("then")), sc, t.st)
            ELSE IF has("else") THEN RunQuery(ToQuery(val("else")), sc, t.st)
            ELSE RowsR(<<>>, t.st)
    [] name = "range" ->
         LET start == IF has("start") THEN ToInt(val("start")) ELSE 0
             step0 == IF has("step") THEN ToInt(val("step")) ELSE 1
         IN RowsR(RangeRows(start, ToInt(val("end")), IF step0 = 0 THEN 1 ELSE step0), a.st)
    [] name = "flatten" ->
         LET q == RunQuery(ToQuery(val("query")), sc, a.st)
         IN FlattenRows(q.rows, sc, q.st)
    [] name = "foreach" ->
         LET rows == IterRows(val("row"), sc, a.st)
         IN Foreach(rows.rows, IF has("query") THEN ToQuery(val("query")) ELSE <<"none">>,
                    IF has("column") THEN val("column")[2] ELSE "", sc,
                    IF has("workers") /\ ToInt(val("workers")) > 1 /\ Len(rows.rows) > 1
                    THEN [rows.st EXCEPT !.unord = @ + 1] ELSE rows.st)

\* from = <<path, called, args>>
EvFrom(from, sc, st) ==
  LET path == from[1] IN
  IF Len(path) = 1 /\ from[2] /\ path[1] \in BuiltinPlugins
  THEN CallPlugin(path[1], from[3], sc, st)
  ELSE LET r0 == Resolve(path[1], sc, st)
           r == IF r0.p THEN ResolvePath(Tail(path), r0.v, sc, r0.st) ELSE r0
           \* Whether an unknown name has no rows or one NULL row is left open
           \* when a row in scope is not made of columns.
           odd == \E i \in 1..Len(sc.vars) : K(sc.vars[i]) # "dict"
       IN IF ~r.p THEN RowsR(<<>>, IF odd THEN [r.st EXCEPT !.u = TRUE] ELSE r.st)
          ELSE IF ~from[2] THEN EvalSymbol(r.v, sc, r.st)
          ELSE CASE K(r.v) = "sexpr" ->
                      LET st1 == NewCtx(r.st)
                          a == CallArgs(from[3], r.v[2].params, sc, st1)
                          e == EvDef(r.v[2].e, [Push(sc, DictV(a.v)) EXCEPT !.agg = st1.nctx], a.st)
                      IN IF TooDeep(sc) THEN RowsR(sc.cut.rows, r.st)
                         ELSE EvalSymbol(e.v, Deeper(sc), e.st)
                 [] K(r.v) = "squery" ->
                      LET a == CallArgs(from[3], r.v[2].params, sc, r.st)
                          m == MaterializeArgs(a.v, Deeper(sc), a.st, <<>>)
                          st1 == NewCtx(m.st)
                      IN IF TooDeep(sc) THEN RowsR(sc.cut.rows, r.st)
                         ELSE EvSel(r.v[2].q,
                                    [Push(Deeper(sc), DictV(m.v)) EXCEPT !.agg = st1.nctx], st1)
                 [] OTHER -> RowsR(<<>>, r.st)

(***************************************************************************)
(* Statements.  Exec gives the rows of every SELECT statement, and how many *)
(* foreach with several workers each of them had.                          *)
(***************************************************************************)
RECURSIVE Exec(_, _, _, _, _)
Exec(stmts, sc, st, outs, un) ==
  IF stmts = <<>> THEN [outs |-> outs, st |-> st, sc |-> sc, un |-> un]
  ELSE LET s == Head(stmts)
       IN CASE s.k = "select" ->
                 LET r == EvSel(s.q, sc, st)
                 IN Exec(Tail(stmts), sc, r.st, Append(outs, r.rows), Append(un, r.st.unord - st.unord))
            [] s.k = "letq" ->
                 IF s.op = "="
                 THEN Exec(Tail(stmts),
                        Push(sc, DictV(<<<<s.name, <<"squery",
                            [q |-> s.q, params |-> s.params]>>>>>>)), st, outs, un)
                 ELSE LET r == EvSel(s.q, sc, st)
                      IN Exec(Tail(stmts),
                           Push(sc, DictV(<<<<s.name, <<"rows", r.rows>>>>>>)), r.st, outs, un)
            [] s.k = "lete" ->
                 IF s.op = "="
                 THEN Exec(Tail(stmts),
                        Push(sc, DictV(<<<<s.name, <<"sexpr",
                            [e |-> s.e, params |-> s.params]>>>>>>)), st, outs, un)
                 ELSE LET r == Ev(s.e, sc, st)
                          q == IF IsQuery(r.v) THEN RunQuery(r.v, sc, r.st) ELSE RowsR(<<>>, r.st)
                          v == IF IsQuery(r.v) THEN <<"rows", q.rows>> ELSE r.v
                      IN Exec(Tail(stmts), Push(sc, DictV(<<<<s.name, v>>>>)), q.st, outs, un)

\* What a reference beyond a depth gives: nothing at all, or something.
NothingBelow(d) == [depth |-> d, val |-> Null, rows |-> <<>>]
SomethingBelow(d) == [depth |-> d, val |-> IntV(7), rows |-> <<DictV(<<<<"cut", IntV(1)>>>>)>>]
NullRowBelow(d) == [depth |-> d, val |-> Null, rows |-> <<Null>>]

RunProgramCut(env, stmts, cut) ==
  Exec(stmts, [vars |-> <<DictV(env)>>, agg |-> 1, depth |-> 0, cut |-> cut], InitSt, <<>>, <<>>)
RunProgram(env, stmts) == RunProgramCut(env, stmts, NothingBelow(100000))
=============================================================================
