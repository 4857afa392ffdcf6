------------------------------ MODULE LexCheck ------------------------------
(***************************************************************************)
(* Recorded tokens of sources, and recorded values of literals (as         *)
(* written, after formatting the parsed query, after reformatting its      *)
(* text), are those of VQLLex.tla.                                         *)
(***************************************************************************)
EXTENDS VQLLex, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VQL_CASES)
W == 8
VARIABLES i, bad

SourceVerdict(c) ==
  LET pieces == Pieces(c.s, 1)
      want == SelectSeq(pieces, IsToken)
      at == PositionsOf(c.s, c.w)
      token(q) == <<want[q][1], Text(c.s, want[q])>>
      place(q) == at[want[q][2]] \o at[want[q][3]]
  IN IF Refused(pieces)
     THEN IF c.parsed \/ ~c.refused THEN "accepted" ELSE "ok"
     ELSE IF c.refused THEN "refused"
     ELSE IF \E q \in 1..Len(want) : q <= Len(c.toks) /\ <<c.toks[q][1], c.toks[q][2]>> # token(q) THEN "token"
     ELSE IF Len(want) # Len(c.toks) THEN "count"
     ELSE IF \E q \in 1..Len(want) : c.toks[q][3] # place(q) THEN "position"
     ELSE "ok"

Matches(v, w) ==
  CASE w = Unspecified -> TRUE
    [] w[1] = "str" -> v[1] = "str" /\ v[2] = w[2]
    [] w[1] = "hex" -> v[1] = "int" /\ v[3] = (IF w[2] = "-" THEN <<"-">> ELSE <<>>)
                                             \o (IF w[3] = <<>> THEN <<"0">> ELSE w[3])
    [] w[1] = "dec" -> v[1] = "int" /\ Decimal(v[2]) = w[2]
    [] w = <<"flt">> -> v[1] = "flt"
    [] w[1] = "flt" -> v[1] = "flt" /\ Decimal(v[2]) = w[2]
    [] w[1] = "bool" -> v[1] = "bool" /\ v[2] = w[2]
    [] w[1] = "null" -> v[1] = "null"

LiteralValue(s, b) ==
  LET t == FirstRule(s, 1, 1)
  IN IF t[2] # Len(s) + 1 THEN Unspecified
     ELSE CASE t[1] \in {"String", "MultilineString"} -> StringValue(s, b)
            [] t[1] = "Number" -> NumberValue(s)
            [] t[1] = "BOOL" -> <<"bool", Fold(s[1]) = "T">>
            [] t[1] = "NULL" -> <<"null">>

LiteralVerdict(c) ==
  IF ~Matches(c.vals[1], LiteralValue(c.s, c.b)) THEN "value"
  ELSE IF \E q \in 2..Len(c.vals) : c.vals[q] # c.vals[1] THEN "formatted"
  ELSE "ok"

Verdict(c) == IF c.kind = "src" THEN SourceVerdict(c) ELSE LiteralVerdict(c)

Report(c, v) ==
  PrintT("MISMATCH " \o ToJson([id |-> c.id, verdict |-> v,
    exp |-> IF c.kind = "src" THEN [q \in 1..Len(Pieces(c.s, 1)) |-> <<Pieces(c.s, 1)[q][1], Text(c.s, Pieces(c.s, 1)[q])>>]
            ELSE LiteralValue(c.s, c.b)]))

Step(n) ==
  \E v \in {Verdict(Cases[n])} :
     /\ i' = n
     /\ bad' = IF v = "ok" THEN bad ELSE bad + (IF Report(Cases[n], v) THEN 1 ELSE 1)

Init == \E n \in 1..W : i = n - W /\ bad = 0
Next == i + W <= Len(Cases) /\ Step(i + W)
Spec == Init /\ [][Next]_<<i, bad>>
===============================================================================
