------------------------------- MODULE ArgCheck -------------------------------
(***************************************************************************)
(* Recorded calls obey ArgRules.tla.  A call has err, the arguments the    *)
(* error names, the fields which kept the value they had (same), the       *)
(* values of the fields (set), the other arguments (kw), and how often     *)
(* each argument was evaluated (evals), from the beginning of the call: a  *)
(* plugin gets its arguments evaluated.                                    *)
(***************************************************************************)
EXTENDS ArgRules, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VQL_CASES)
W == 8
VARIABLES i, bad

RECURSIVE Match(_, _)
Match(e, o) ==
  IF e = Some \/ e = o THEN TRUE
  ELSE IF K(e) # K(o) THEN FALSE
  ELSE IF K(e) = "arr" THEN Len(e[2]) = Len(o[2]) /\ \A q \in 1..Len(e[2]) : Match(e[2][q], o[2][q])
  ELSE IF K(e) = "dict" THEN Len(e[2]) = Len(o[2]) /\ \A q \in 1..Len(e[2]) :
                               e[2][q][1] = o[2][q][1] /\ Match(e[2][q][2], o[2][q][2])
  ELSE FALSE

Range(s) == {s[q] : q \in 1..Len(s)}
ValueOf(set, name) == set[CHOOSE q \in 1..Len(set) : set[q][1] = name][2]

FieldOk(c, r, f) ==
  IF f[2] = "untagged" \/ ~Passed(c.args, f[1]) THEN f[1] \in Range(r.same)
  ELSE LET v == Conversion(f, c.args)
       IN v = Open \/ Match(v[2], ValueOf(r.set, f[1]))

\* At most the arguments which are evaluated are, and those once.
EvalsOk(c, r, a) ==
  LET n == r.evals[a[1]]
      fs == {j \in Declared(c.fields) : c.fields[j][1] = a[1]}
      t == c.fields[CHOOSE j \in fs : TRUE][2]
  IN IF ~a[4] \/ (c.star /\ a[2] # "value") THEN TRUE
     ELSE IF c.plugin /\ a[2] = "value" THEN n = 1
     ELSE IF fs # {} /\ ~c.star /\ PassedOn(t, a) THEN n = 0
     ELSE IF a[2] # "value" THEN TRUE
     ELSE IF r.err # "" THEN n <= 1
     ELSE n = 1

KwOk(c, r) ==
  LET o == Others(c.fields, c.args)
  IN IF ~c.kw THEN TRUE
     ELSE /\ Len(r.kw[2]) = Len(o)
          /\ \A j \in 1..Len(o) : r.kw[2][j][1] = o[j][1] /\ Match(o[j][3], r.kw[2][j][2])

CallVerdict(c, r) ==
  LET guilty == Guilty(c.fields, c.args, c.kw)
      open == OpenOnes(c.fields, c.args)
  IN IF guilty # {} /\ r.err = "" THEN "accepted"
     ELSE IF guilty = {} /\ open = {} /\ r.err # "" THEN "refused"
     ELSE IF r.err # "" /\ Range(r.named) \intersect (guilty \union open) = {} THEN "unnamed"
     ELSE IF \E j \in 1..Len(c.args) : ~EvalsOk(c, r, c.args[j]) THEN "evaluations"
     ELSE IF r.err = "" /\ \E j \in 1..Len(c.fields) : ~FieldOk(c, r, c.fields[j]) THEN "field"
     ELSE IF r.err = "" /\ ~KwOk(c, r) THEN "others"
     ELSE "ok"

Verdict(c) ==
  IF c.err # "" THEN "error"
  ELSE IF Len(c.calls) # 2 THEN "calls"
  ELSE LET v == {CallVerdict(c, c.calls[1]), CallVerdict(c, c.calls[2])}
       IN IF v = {"ok"} THEN "ok" ELSE CHOOSE x \in v : x # "ok"

Report(c, v) ==
  PrintT("MISMATCH " \o ToJson([id |-> c.id, verdict |-> v,
    exp |-> Tuple([j \in 1..Len(c.fields) |->
       <<c.fields[j][1], IF c.fields[j][2] = "untagged" THEN <<"untagged">>
                         ELSE IF Passed(c.args, c.fields[j][1]) THEN Conversion(c.fields[j], c.args) ELSE <<"not passed">>>>])]))

Step(n) ==
  \E v \in {Verdict(Cases[n])} :
     /\ i' = n
     /\ bad' = IF v = "ok" THEN bad ELSE bad + (IF Report(Cases[n], v) THEN 1 ELSE 1)

Init == \E n \in 1..W : i = n - W /\ bad = 0
Next == i + W <= Len(Cases) /\ Step(i + W)
Spec == Init /\ [][Next]_<<i, bad>>
===============================================================================
