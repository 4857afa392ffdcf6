------------------------------ MODULE VQLCheck ------------------------------
(***************************************************************************)
(* Conformance of recorded executions to VQL.tla.  Each record of the case *)
(* file has a program, the environment, and what the implementation did    *)
(* with it: the rows of every SELECT and the probe events.                 *)
(***************************************************************************)
EXTENDS VQLValues, Json, IOUtils

CaseFile == IOEnv.VQL_CASES
W == 8

RawTables == JsonDeserialize(CaseFile \o ".tables")
Cases == ndJsonDeserialize(CaseFile)

M == INSTANCE VQL WITH Tables <- RawTables

VARIABLES i, bad, skipped

SelectsOf(stmts) == SelectSeq(stmts, LAMBDA s : s.k = "select")

SeqCount(s, x) == Cardinality({j \in 1..Len(s) : s[j] = x})
SubBag(a, b) == \A j \in 1..Len(a) : SeqCount(a, a[j]) <= SeqCount(b, a[j])
SameBag(a, b) == Len(a) = Len(b) /\ SubBag(a, b)

KeySeq(rows, col) == [j \in 1..Len(rows) |->
   IF K(rows[j]) = "dict" /\ HasKey(rows[j][2], col) THEN M!KeyForm(DGet(rows[j][2], col)) ELSE Null]

IsPrefix2(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

NormRows(rows) == Tuple([j \in 1..Len(rows) |-> M!Norm(rows[j])])

OutOk(sel, exp, obs, ties, unord) ==
  LET e == NormRows(exp)
  IN IF unord THEN SameBag(e, obs)
     ELSE IF ties /\ sel.order # ""
     THEN Len(e) = Len(obs) /\ KeySeq(e, sel.order) = KeySeq(obs, sel.order)
          /\ (sel.limit < 0 => SameBag(e, obs))
     ELSE e = obs

\* The rows read before a cancellation are the first ones of the result.
CutOk(sel, exp, obs, ties, unord) ==
  LET e == NormRows(exp)
  IN IF unord THEN SubBag(obs, e)
     ELSE IF ties /\ sel.order # ""
     THEN IsPrefix2(KeySeq(obs, sel.order), KeySeq(e, sel.order))
     ELSE IsPrefix2(obs, e)

\* Calls whose context was not cancelled with the query.
Noted(c, what) == {c.log[j][2][2] : j \in {k \in 1..Len(c.log) : c.log[k][1] = what}}
Late(c) == Noted(c, "!notcancelled")

\* A tie below the top level makes the rest unpredictable.
TiesNested(c, r) == r.st.ties /\ ~(Len(c.stmts) = 1 /\ c.stmts[1].k = "select"
                                   /\ c.stmts[1].q.order # "")

\* Rows of a foreach with workers are compared as a bag when it is the source
\* of a top level SELECT; anywhere else their order is not predictable.
TopWorkers(sel) == sel.from[2] /\ sel.from[1] = <<"foreach">>
                   /\ \E j \in 1..Len(sel.from[3]) : sel.from[3][j][1] = "workers"
Plain(sel) == sel.order = "" /\ sel.limit < 0 /\ sel.group = <<>>
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
UnordNested(c, r) ==
  LET sels == SelectsOf(c.stmts)
  IN /\ r.st.unord > 0
     /\ \/ DOMAIN r.st.agg # {}
        \/ SumSeq(r.un) # r.st.unord
        \/ \E j \in 1..Len(sels) :
             r.un[j] > 0 /\ ~(r.un[j] = 1 /\ TopWorkers(sels[j].q) /\ Plain(sels[j].q))

\* The source was asked for more rows than the result needs: a row for each
\* stage of the query may be under way, and a cancelled stage may take some.
Slack == 60
RowId(v) == IF K(v) = "dict" /\ HasKey(v[2], "id") /\ K(DGet(v[2], "id")) = "int" THEN DGet(v[2], "id")[2] ELSE 0
Needed(c) == LET out == c.outs[Len(c.outs)]
                 ids == {RowId(out[j]) : j \in 1..Len(out)} \union {0}
             IN CHOOSE n \in ids : \A m \in ids : m <= n
Overrun(c, r) ==
  /\ \A j \in 1..Len(c.stmts) : c.stmts[j].op # "<=" /\ c.stmts[j].q.order = ""
  /\ c.pull[1] > c.pull[2] + Slack \/ c.pull[3] > Needed(c) + Slack

(***************************************************************************)
(* Recursion.  Where it is cut off is open, and so is whether there is     *)
(* something or nothing below; what does not depend on either is required. *)
(***************************************************************************)
Whatever == <<"whatever">>
RECURSIVE Meet(_, _), Match(_, _, _)
Meet(a, b) ==
  IF a = b THEN a
  ELSE IF K(a) = "arr" /\ K(b) = "arr" /\ Len(a[2]) = Len(b[2])
  THEN ArrV(Tuple([q \in 1..Len(a[2]) |-> Meet(a[2][q], b[2][q])]))
  ELSE IF K(a) = "dict" /\ K(b) = "dict" /\ Len(a[2]) = Len(b[2])
          /\ \A q \in 1..Len(a[2]) : a[2][q][1] = b[2][q][1]
  THEN DictV(Tuple([q \in 1..Len(a[2]) |-> <<a[2][q][1], Meet(a[2][q][2], b[2][q][2])>>]))
  ELSE Whatever
\* Arrays within arrays are copied to a depth of ten only by some.
Match(m, o, d) ==
  IF m = Whatever \/ m = o \/ K(o) = "clipped" THEN TRUE
  ELSE IF K(m) # K(o) THEN d > 9
  ELSE IF K(m) = "arr"
  THEN d > 9 \/ (Len(m[2]) = Len(o[2]) /\ \A q \in 1..Len(m[2]) : Match(m[2][q], o[2][q], d + 1))
  ELSE IF K(m) = "dict"
  THEN Len(m[2]) = Len(o[2])
       /\ \A q \in 1..Len(m[2]) : m[2][q][1] = o[2][q][1] /\ Match(m[2][q][2], o[2][q][2], 0)
  ELSE FALSE
\* The rows all agree on, up to the first which depends on the cut off;
\* open: there may be others behind them.
MeetRows(a, b) ==
  LET n == IF Len(a.rows) < Len(b.rows) THEN Len(a.rows) ELSE Len(b.rows)
      differ == {q \in 1..n : a.rows[q] # b.rows[q]}
      last == IF differ = {} THEN n ELSE CHOOSE q \in differ : \A p \in differ : q <= p
  IN [rows |-> Tuple([q \in 1..last |-> Meet(a.rows[q], b.rows[q])]),
      open |-> a.open \/ b.open \/ a.rows # b.rows]
RECURSIVE MeetAll(_)
MeetAll(s) == IF Len(s) = 1 THEN s[1] ELSE MeetRows(s[1], MeetAll(Tail(s)))
\* The recorder keeps the first rows and events.
Capped(n) == IF n > 300 THEN 300 ELSE n
MatchRows(m, o) ==
  /\ Capped(Len(m.rows)) <= Len(o) /\ (m.open \/ Capped(Len(m.rows)) = Len(o))
  /\ \A q \in 1..Capped(Len(m.rows)) : Match(m.rows[q], o[q], 0)

Ids(log) == [q \in 1..Len(log) |-> log[q][1]]
RecursionRuns(c) ==
  LET d == c.at[2]
      one == M!RunProgramCut(c.env, c.stmts, M!NothingBelow(d))
  IN IF c.at[1] = "bound" THEN <<one>> ELSE
     <<one,
       M!RunProgramCut(c.env, c.stmts, M!SomethingBelow(d)),
       M!RunProgramCut(c.env, c.stmts, M!SomethingBelow(d + 1)),
       M!RunProgramCut(c.env, c.stmts, M!NullRowBelow(d)),
       M!RunProgramCut(c.env, c.stmts, M!NullRowBelow(d + 1)),
       M!RunProgramCut(c.env, c.stmts, M!NothingBelow(d + 1)),
       M!RunProgramCut(c.env, c.stmts, M!NothingBelow(d + 2)),
       M!RunProgramCut(c.env, c.stmts, M!NothingBelow(d + 3)),
       M!RunProgramCut(c.env, c.stmts, M!NothingBelow(d + 8))>>
\* at: <<"bound", d>> when no reference gets to depth d.
RecursionVerdict(c) ==
  LET rs == RecursionRuns(c)
      rows(k, j) == [rows |-> NormRows(rs[k].outs[j]), open |-> FALSE]
      m(j) == MeetAll([k \in 1..Len(rs) |-> rows(k, j)])
      logs == \A k \in 1..Len(rs) : rs[1].st.log = rs[k].st.log
  IN IF \E k \in 1..Len(rs) : rs[k].st.u \/ rs[k].st.ties THEN "skip"
     ELSE IF Len(rs[1].outs) # Len(c.outs) THEN "outs"
     ELSE IF \E j \in 1..Len(c.outs) : ~MatchRows(m(j), c.outs[j]) THEN "rows"
     ELSE IF logs /\ ~rs[1].st.trunc /\ ~SubBag(Ids(c.log), Ids(rs[1].st.log)) THEN "log"
     ELSE IF logs /\ ~rs[1].st.trunc /\ ~rs[1].st.part /\ Capped(Len(c.log)) # Capped(Len(rs[1].st.log)) THEN "log"
     ELSE IF c.leak > 0 THEN "leak"
     ELSE "ok"

Verdict(c) ==
  IF c.err = "big" THEN "skip"
  ELSE IF c.mode = "recursion" THEN (IF c.err # "" THEN "error" ELSE RecursionVerdict(c))
  ELSE IF c.err # "" THEN (IF c.mode \in {"endless", "stall"} /\ M!RunProgram(c.env, c.stmts).st.short THEN "skip" ELSE "error")
  ELSE LET r == M!RunProgram(c.env, c.stmts)
           sels == SelectsOf(c.stmts)
       IN IF c.mode \in {"endless", "stall"} /\ r.st.short THEN "skip"
          ELSE IF r.st.u \/ TiesNested(c, r) \/ UnordNested(c, r) THEN "skip"
          ELSE IF Len(r.outs) # Len(c.outs) THEN "outs"
          ELSE IF \E j \in 1..Len(sels) :
                    IF j = Len(sels) /\ c.mode = "cancel"
                    THEN ~CutOk(sels[j].q, r.outs[j], c.outs[j], r.st.ties, r.un[j] > 0)
                    ELSE ~OutOk(sels[j].q, r.outs[j], c.outs[j], r.st.ties, r.un[j] > 0)
               THEN "rows"
          ELSE IF c.mode \in {"endless", "stall"}
          THEN IF Overrun(c, r) THEN "overrun" ELSE IF c.leak > 0 THEN "leak" ELSE "ok"
          ELSE IF c.mode = "cancel"
          THEN IF c.leak > 0 THEN "leak"
               \* Nothing ends before its time when nothing is cut short.
               ELSE IF ~r.st.trunc /\ c.at[1] = "none" /\ Noted(c, "!early") # {} THEN "early"
               ELSE IF ~r.st.trunc /\ Noted(c, "!refused") # {} THEN "refused"
               ELSE IF Late(c) = {} THEN "ok"
               ELSE IF Late(c) \subseteq r.st.dets THEN "detached" ELSE "context"
          \* What a pipeline which is being cancelled still evaluates is open.
          ELSE IF ~r.st.trunc /\ ~SubBag(c.log, r.st.log) THEN "log"
          ELSE IF ~r.st.trunc /\ ~r.st.part /\ Len(c.log) # Len(r.st.log) THEN "log"
          ELSE IF c.leak > 0 THEN "leak"
          ELSE "ok"

Report(c, v) ==
  LET r == IF c.mode = "recursion" THEN RecursionRuns(c)[1]
           ELSE IF v \in {"rows", "log", "outs"} THEN M!RunProgram(c.env, c.stmts)
           ELSE [outs |-> <<>>, st |-> M!InitSt]
  IN PrintT("MISMATCH " \o ToJson([id |-> c.id, verdict |-> v, err |-> c.err,
        outs |-> [j \in 1..Len(r.outs) |-> NormRows(r.outs[j])], log |-> r.st.log]))

Step(n) ==
  \E v \in {Verdict(Cases[n])} :
     /\ i' = n
     /\ bad' = IF v \in {"ok", "skip"} THEN bad ELSE bad + (IF Report(Cases[n], v) THEN 1 ELSE 1)
     /\ skipped' = IF v = "skip" THEN skipped + (IF PrintT("SKIP " \o ToString(n)) THEN 1 ELSE 1) ELSE skipped

Init == \E n \in 1..W : i = n - W /\ bad = 0 /\ skipped = 0
Next == i + W <= Len(Cases) /\ Step(i + W)
Spec == Init /\ [][Next]_<<i, bad, skipped>>
=============================================================================
