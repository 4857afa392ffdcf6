------------------------------- MODULE VQLParse -------------------------------
(***************************************************************************)
(* Reference grammar of VQL expressions over tokens, loosest first:        *)
(*   list := and { "," and }          (only inside parentheses)            *)
(*   and  := or { (AND | &&) or }                                          *)
(*   or   := cond { (OR | "||") cond }                                     *)
(*   cond := NOT cond | sum [ comparison sum ]                             *)
(*   sum  := product { (+ | -) product }                                   *)
(*   product := member { ( * | / ) member }                                *)
(*   member := value { . name | [ index ] | [ from : to ] }                *)
(* giving the expressions VQL.tla evaluates.  A token is <<kind, text or   *)
(* value>> with kind "lit", "id", "neg" (a -name), "op".                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Fail == [ok |-> FALSE, e |-> <<>>, p |-> 0]
Ok(e, p) == [ok |-> TRUE, e |-> e, p |-> p]

IsOp(toks, p, s) == p <= Len(toks) /\ toks[p][1] = "op" /\ toks[p][2] \in s
IsKind(toks, p, k) == p <= Len(toks) /\ toks[p][1] = k

RECURSIVE PList(_, _), PListTail(_, _, _), PAnd(_, _), PAndTail(_, _, _, _), POr(_, _), POrTail(_, _, _, _),
          PCond(_, _), PSum(_, _), PSumTail(_, _, _, _), PProd(_, _), PProdTail(_, _, _, _),
          PMember(_, _), PMemberTail(_, _, _), PValue(_, _), PArgs(_, _, _)

PList(t, p) ==
  LET r == PAnd(t, p)
  IN IF ~r.ok THEN Fail
     ELSE IF ~IsOp(t, r.p, {","}) THEN r
     ELSE PListTail(t, r.p, <<r.e>>)

\* A trailing comma makes a list of what came before.
PListTail(t, p, acc) ==
  IF ~IsOp(t, p, {","}) THEN Ok(<<"arr", acc>>, p)
  ELSE LET r == PAnd(t, p + 1)
       IN IF ~r.ok THEN Ok(<<"arr", acc>>, p + 1) ELSE PListTail(t, r.p, Append(acc, r.e))

Chain(kind, first, terms) == IF terms = <<>> THEN first ELSE <<kind, first, terms>>

PAnd(t, p) == LET r == POr(t, p) IN IF ~r.ok THEN Fail ELSE PAndTail(t, r.p, r.e, <<>>)
PAndTail(t, p, first, acc) ==
  IF ~IsOp(t, p, {"AND", "&&"}) THEN Ok(Chain("and", first, acc), p)
  ELSE LET r == POr(t, p + 1)
       IN IF ~r.ok THEN Fail ELSE PAndTail(t, r.p, first, Append(acc, <<t[p][2], r.e>>))

POr(t, p) == LET r == PCond(t, p) IN IF ~r.ok THEN Fail ELSE POrTail(t, r.p, r.e, <<>>)
POrTail(t, p, first, acc) ==
  IF ~IsOp(t, p, {"OR", "||"}) THEN Ok(Chain("or", first, acc), p)
  ELSE LET r == PCond(t, p + 1)
       IN IF ~r.ok THEN Fail ELSE POrTail(t, r.p, first, Append(acc, <<t[p][2], r.e>>))

Comparisons == {"=", "!=", "<>", "<", "<=", ">", ">=", "IN", "=~"}
PCond(t, p) ==
  IF IsOp(t, p, {"NOT"})
  THEN LET r == PCond(t, p + 1) IN IF r.ok THEN Ok(<<"not", r.e>>, r.p) ELSE Fail
  ELSE LET l == PSum(t, p)
       IN IF ~l.ok THEN Fail
          ELSE IF ~IsOp(t, l.p, Comparisons) THEN l
          ELSE LET r == PSum(t, l.p + 1)
               IN IF r.ok THEN Ok(<<"cmp", t[l.p][2], l.e, r.e>>, r.p) ELSE Fail

PSum(t, p) == LET r == PProd(t, p) IN IF ~r.ok THEN Fail ELSE PSumTail(t, r.p, r.e, <<>>)
PSumTail(t, p, first, acc) ==
  IF ~IsOp(t, p, {"+", "-"}) THEN Ok(Chain("add", first, acc), p)
  ELSE LET r == PProd(t, p + 1)
       IN IF ~r.ok THEN Fail ELSE PSumTail(t, r.p, first, Append(acc, <<t[p][2], r.e>>))

PProd(t, p) == LET r == PMember(t, p) IN IF ~r.ok THEN Fail ELSE PProdTail(t, r.p, r.e, <<>>)
PProdTail(t, p, first, acc) ==
  IF ~IsOp(t, p, {"*", "/"}) THEN Ok(Chain("mul", first, acc), p)
  ELSE LET r == PMember(t, p + 1)
       IN IF ~r.ok THEN Fail ELSE PProdTail(t, r.p, first, Append(acc, <<t[p][2], r.e>>))

PMember(t, p) == LET r == PValue(t, p) IN IF ~r.ok THEN Fail ELSE PMemberTail(t, r.p, r.e)
PMemberTail(t, p, b) ==
  IF IsOp(t, p, {"."})
  THEN IF IsKind(t, p + 1, "id") THEN PMemberTail(t, p + 2, <<"mem", b, t[p + 1][2]>>) ELSE Fail
  ELSE IF ~IsOp(t, p, {"["}) THEN Ok(b, p)
  ELSE LET lo == IF IsOp(t, p + 1, {":"}) THEN Ok(<<"lit", <<"null">>>>, p + 1) ELSE PValue(t, p + 1)
       IN IF ~lo.ok THEN Fail
          ELSE IF IsOp(t, lo.p, {"]"})
               THEN IF IsOp(t, p + 1, {":"}) THEN Fail ELSE PMemberTail(t, lo.p + 1, <<"idx", b, lo.e>>)
          ELSE IF ~IsOp(t, lo.p, {":"}) THEN Fail
          ELSE LET hasLo == ~IsOp(t, p + 1, {":"})
                   hasHi == ~IsOp(t, lo.p + 1, {"]"})
                   hi == IF hasHi THEN PValue(t, lo.p + 1) ELSE Ok(<<"lit", <<"null">>>>, lo.p + 1)
               IN IF ~hi.ok \/ ~IsOp(t, hi.p, {"]"}) THEN Fail
                  ELSE PMemberTail(t, hi.p + 1, <<"slice", b, hasLo, lo.e, hasHi, hi.e>>)

PValue(t, p) ==
  IF p > Len(t) THEN Fail
  ELSE CASE t[p][1] = "lit" -> Ok(<<"lit", t[p][2]>>, p + 1)
         [] t[p][1] = "neg" -> Ok(<<"neg", <<"sym", t[p][2]>>>>, p + 1)
         [] t[p][1] = "id" ->
              IF IsOp(t, p + 1, {"("})
              THEN IF IsOp(t, p + 2, {")"}) THEN Ok(<<"call", p, t[p][2], <<>>>>, p + 3)
                   ELSE LET a == PArgs(t, p + 2, <<>>)
                        IN IF a.ok THEN Ok(<<"call", p, t[p][2], a.e>>, a.p) ELSE Fail
              ELSE Ok(<<"sym", t[p][2]>>, p + 1)
         [] IsOp(t, p, {"("}) ->
              LET r == PList(t, p + 1)
              IN IF r.ok /\ IsOp(t, r.p, {")"}) THEN Ok(r.e, r.p + 1) ELSE Fail
         [] OTHER -> Fail

PArgs(t, p, acc) ==
  IF ~(IsKind(t, p, "id") /\ IsOp(t, p + 1, {"="})) THEN Fail
  ELSE LET r == PAnd(t, p + 2)
       IN IF ~r.ok THEN Fail
          ELSE LET acc2 == Append(acc, <<t[p][2], "e", r.e>>)
               IN IF IsOp(t, r.p, {")"}) THEN Ok(acc2, r.p + 1)
                  ELSE IF IsOp(t, r.p, {","}) THEN PArgs(t, r.p + 1, acc2)
                  ELSE Fail

ParseExpr(toks) == LET r == PAnd(toks, 1) IN IF r.ok /\ r.p = Len(toks) + 1 THEN r ELSE Fail
=============================================================================
