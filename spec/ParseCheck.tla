------------------------------ MODULE ParseCheck ------------------------------
(***************************************************************************)
(* Token sequences parsed by VQLParse.tla and evaluated by VQL.tla give    *)
(* the value the implementation computes from the text.                    *)
(***************************************************************************)
EXTENDS VQLParse, VQLValues, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VQL_CASES)
W == 8
M == INSTANCE VQL WITH Tables <- <<>>

Query(e) == [k |-> "select",
   q |-> [cols |-> <<<<"as", "r", e>>>>, from |-> <<<<"scope">>, TRUE, <<>>>>, where |-> <<"none">>,
          group |-> <<>>, order |-> "", desc |-> FALSE, limit |-> -1, explain |-> FALSE]]

Eval(c) ==
  LET r == ParseExpr(c.toks)
  IN IF ~r.ok THEN [v |-> "skip", x |-> Null]
     ELSE LET x == M!RunProgram(c.env, <<Query(r.e)>>)
          IN IF x.st.u THEN [v |-> "skip", x |-> Null]
             ELSE [v |-> "", x |-> M!Norm(x.outs[1][1][2][1][2])]

Verdict(c, r) ==
  IF r.v # "" THEN r.v ELSE IF c.err # "" THEN "error" ELSE IF c.res # r.x THEN "value" ELSE "ok"

VARIABLES i, bad
Step(n) ==
  LET r == Eval(Cases[n])
      v == Verdict(Cases[n], r)
  IN /\ i' = n
     /\ bad' = IF v = "ok" THEN bad
               ELSE IF v = "skip" THEN bad + (IF PrintT("SKIP " \o ToString(Cases[n].id)) THEN 0 ELSE 0)
               ELSE bad + (IF PrintT("MISMATCH " \o ToJson([id |-> Cases[n].id, verdict |-> v, exp |-> r.x])) THEN 1 ELSE 1)
Init == \E n \in 1..W : i = n - W /\ bad = 0
Next == i + W <= Len(Cases) /\ Step(i + W)
Spec == Init /\ [][Next]_<<i, bad>>
=============================================================================
