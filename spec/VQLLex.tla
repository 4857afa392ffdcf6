------------------------------- MODULE VQLLex --------------------------------
(***************************************************************************)
(* The lexical grammar: a source is a sequence of characters (strings of   *)
(* length one), cut into tokens from the left.  At every position the      *)
(* first rule of Rules which matches gives the token; if none does the     *)
(* source is refused.  Space is dropped.                                   *)
(* Also the values the literal tokens denote.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Chars(str) == [k \in 1..Len(str) |-> SubSeq(str, k, k)]
Class(str) == {SubSeq(str, k, k) : k \in 1..Len(str)}

Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Digits == Class("0123456789")
Hex == Class("0123456789abcdefABCDEF")
Letters == Class(Lower) \cup Class(Upper) \cup {"_"}
Word == Letters \cup Digits
Space == Class(" \t\n\f\r")
UpperOf == [c \in Class(Lower) |->
              SubSeq(Upper, CHOOSE k \in 1..26 : SubSeq(Lower, k, k) = c, CHOOSE k \in 1..26 : SubSeq(Lower, k, k) = c)]
Fold(c) == IF c \in Class(Lower) THEN UpperOf[c] ELSE c

At(s, p) == IF p <= Len(s) THEN s[p] ELSE ""

\* The first position from p on which is not of the class.
RECURSIVE Run(_, _, _)
Run(s, p, C) == IF p <= Len(s) /\ s[p] \in C THEN Run(s, p + 1, C) ELSE p
\* The first position from p on which is of the class (or the end).
RECURSIVE Until(_, _, _)
Until(s, p, C) == IF p <= Len(s) /\ s[p] \notin C THEN Until(s, p + 1, C) ELSE p

Here(s, p, lit) == p + Len(lit) - 1 <= Len(s) /\ \A k \in 1..Len(lit) : s[p + k - 1] = lit[k]
\* Just past the first occurrence of lit from p on, 0 if there is none.
RECURSIVE Past(_, _, _)
Past(s, p, lit) == IF p + Len(lit) - 1 > Len(s) THEN 0
                   ELSE IF Here(s, p, lit) THEN p + Len(lit)
                   ELSE Past(s, p + 1, lit)

\* The word in any case, not followed by more of a word.
FoldHere(s, p, word) == p + Len(word) - 1 <= Len(s) /\ \A k \in 1..Len(word) : Fold(s[p + k - 1]) = word[k]
WordEnd(s, p, word) ==
  IF FoldHere(s, p, word) /\ At(s, p + Len(word)) \notin Word THEN p + Len(word) ELSE 0

TwoWords(s, p, first, second) ==
  IF ~FoldHere(s, p, first) THEN 0
  ELSE LET q == Run(s, p + Len(first), Space)
       IN IF q = p + Len(first) THEN 0 ELSE WordEnd(s, q, second)

NumberEnd(s, start) ==
  LET p == IF At(s, start) = "-" THEN start + 1 ELSE start
      whole == Run(s, p, Digits)
      frac == IF At(s, whole) = "." /\ At(s, whole + 1) \in Digits THEN Run(s, whole + 1, Digits) ELSE whole
      sign == IF At(s, frac + 1) \in {"-", "+"} THEN frac + 2 ELSE frac + 1
  IN IF At(s, p) = "0" /\ At(s, p + 1) = "x" /\ At(s, p + 2) \in Hex THEN Run(s, p + 2, Hex)
     ELSE IF frac = p THEN 0
     ELSE IF At(s, frac) \in {"e", "E"} /\ At(s, sign) \in Digits THEN Run(s, sign, Digits)
     ELSE frac

NameEnd(s, p) ==
  IF At(s, p) \in Letters THEN Run(s, p, Word)
  ELSE IF At(s, p) = "`"
  THEN LET q == Until(s, p + 1, {"`"}) IN IF q > p + 1 /\ q <= Len(s) THEN q + 1 ELSE 0
  ELSE 0

\* A quoted string ends at its quote; a backslash takes the next character along.
RECURSIVE QuoteEnd(_, _, _)
QuoteEnd(s, p, quote) ==
  IF p > Len(s) THEN 0
  ELSE IF s[p] = quote THEN p + 1
  ELSE IF s[p] = "\\" THEN QuoteEnd(s, p + 2, quote)
  ELSE QuoteEnd(s, p + 1, quote)

Ops2 == << Chars("<>"), Chars("!="), Chars("<="), Chars(">="), Chars("=>"), Chars("=~") >>
Ops1 == Class("-+:*/%,.()=<>{}[]")
OpEnd(s, p) ==
  IF \E k \in 1..Len(Ops2) : Here(s, p, Ops2[k]) THEN p + 2
  ELSE IF At(s, p) \in Ops1 THEN p + 1 ELSE 0

Keywords == {"EXPLAIN", "SELECT", "WHERE", "AND", "OR", "FROM", "NOT", "AS", "IN", "LIMIT", "NULL", "DESC", "LET"}
KeywordChars == [w \in Keywords |-> Chars(w)]
Group == Chars("GROUP")
Order == Chars("ORDER")
By == Chars("BY")
True == Chars("TRUE")
False == Chars("FALSE")

Rules == << "whitespace", "MLineComment", "VQLComment", "Comment", "EXPLAIN", "SELECT", "WHERE", "AND", "OR",
            "AlternativeOR", "AlternativeAND", "FROM", "NOT", "AS", "IN", "LIMIT", "NULL", "DESC", "GROUPBY",
            "ORDERBY", "BOOL", "LET", "Number", "Ident", "SymbolIdent", "Operators", "MultilineString", "String" >>

\* The position just past the token the rule takes at p, 0 if it does not match.
EndOf(rule, s, p) ==
  CASE rule = "whitespace" -> LET q == Run(s, p, Space) IN IF q > p THEN q ELSE 0
    [] rule = "MLineComment" -> IF Here(s, p, <<"/", "*">>) THEN Past(s, p + 2, <<"*", "/">>) ELSE 0
    [] rule = "VQLComment" -> IF Here(s, p, <<"-", "-">>) THEN Until(s, p + 2, {"\n"}) ELSE 0
    [] rule = "Comment" -> IF Here(s, p, <<"/", "/">>) THEN Until(s, p + 2, {"\n"}) ELSE 0
    [] rule = "AlternativeOR" -> LET q == Run(s, p, {"|"}) IN IF q > p THEN q ELSE 0
    [] rule = "AlternativeAND" -> IF Here(s, p, <<"&", "&">>) THEN p + 2 ELSE 0
    [] rule = "GROUPBY" -> TwoWords(s, p, Group, By)
    [] rule = "ORDERBY" -> TwoWords(s, p, Order, By)
    [] rule = "BOOL" -> IF WordEnd(s, p, True) > 0 THEN WordEnd(s, p, True) ELSE WordEnd(s, p, False)
    [] rule = "Number" -> NumberEnd(s, p)
    [] rule = "Ident" -> NameEnd(s, p)
    [] rule = "SymbolIdent" -> IF At(s, p) = "-" THEN NameEnd(s, p + 1) ELSE 0
    [] rule = "Operators" -> OpEnd(s, p)
    [] rule = "MultilineString" -> IF Here(s, p, <<"'", "'", "'">>) THEN Past(s, p + 3, <<"'", "'", "'">>) ELSE 0
    [] rule = "String" -> IF At(s, p) \in {"'", "\""} THEN QuoteEnd(s, p + 1, s[p]) ELSE 0
    [] OTHER -> WordEnd(s, p, KeywordChars[rule])

\* <<rule, end>> of the token at p, or <<"none", 0>>.
RECURSIVE FirstRule(_, _, _)
FirstRule(s, p, n) ==
  IF n > Len(Rules) THEN <<"none", 0>>
  ELSE LET e == EndOf(Rules[n], s, p) IN IF e > 0 THEN <<Rules[n], e>> ELSE FirstRule(s, p, n + 1)

\* All pieces of the source as <<rule, start, end>>; the last has rule "none" if the rest is refused.
RECURSIVE Pieces(_, _)
Pieces(s, p) ==
  IF p > Len(s) THEN <<>>
  ELSE LET t == FirstRule(s, p, 1)
       IN IF t[2] = 0 THEN << <<"none", p, p>> >>
          ELSE << <<t[1], p, t[2]>> >> \o Pieces(s, t[2])

Refused(pieces) == pieces # <<>> /\ pieces[Len(pieces)][1] = "none"
IsToken(piece) == piece[1] # "whitespace"
Text(s, piece) == SubSeq(s, piece[2], piece[3] - 1)

(***************************************************************************)
(* Positions: bytes from 0, lines and columns (of characters) from 1.      *)
(* width[q] is the number of bytes of the q-th character.                  *)
(***************************************************************************)
RECURSIVE Positions(_, _, _, _)
Positions(s, width, q, acc) ==
  IF q > Len(s) THEN acc
  ELSE LET at == acc[q]
       IN Positions(s, width, q + 1, Append(acc,
            IF s[q] = "\n" THEN <<at[1] + width[q], at[2] + 1, 1>>
            ELSE <<at[1] + width[q], at[2], at[3] + 1>>))
PositionsOf(s, width) == Positions(s, width, 1, << <<0, 1, 1>> >>)

(***************************************************************************)
(* The values of literals.                                                 *)
(***************************************************************************)
Unspecified == <<"unspecified">>

HexDigit(c) == (CHOOSE k \in 1..16 : Fold(c) = SubSeq("0123456789ABCDEF", k, k)) - 1

\* bytes[q] are the bytes of the q-th character.
RECURSIVE Unquote(_, _, _, _, _)
Unquote(s, bytes, p, last, acc) ==
  IF p > last THEN acc
  ELSE IF s[p] # "\\" THEN Unquote(s, bytes, p + 1, last, acc \o bytes[p])
  ELSE CASE s[p + 1] = "n" -> Unquote(s, bytes, p + 2, last, Append(acc, 10))
         [] s[p + 1] = "r" -> Unquote(s, bytes, p + 2, last, Append(acc, 13))
         [] s[p + 1] = "t" -> Unquote(s, bytes, p + 2, last, Append(acc, 9))
         [] s[p + 1] \in {"x", "X"} ->
              IF p + 3 <= last /\ s[p + 2] \in Hex /\ s[p + 3] \in Hex
              THEN Unquote(s, bytes, p + 4, last, Append(acc, 16 * HexDigit(s[p + 2]) + HexDigit(s[p + 3])))
              \* Not an escape: the backslash stands for itself.
              ELSE Unquote(s, bytes, p + 1, last, acc \o bytes[p])
         [] OTHER -> Unquote(s, bytes, p + 2, last, acc \o bytes[p + 1])

\* An \x with fewer than two characters after it is not specified.
CutEscape(s, last) == \E p \in 1..last : s[p] = "\\" /\ s[p + 1] \in {"x", "X"} /\ p + 3 > last

RECURSIVE Flatten(_, _, _)
Flatten(bytes, p, last) == IF p > last THEN <<>> ELSE bytes[p] \o Flatten(bytes, p + 1, last)

StringValue(s, bytes) ==
  IF Here(s, 1, <<"'", "'", "'">>) /\ Len(s) >= 6 THEN <<"str", Flatten(bytes, 4, Len(s) - 3)>>
  ELSE IF CutEscape(s, Len(s) - 1) THEN Unspecified
  ELSE <<"str", Unquote(s, bytes, 2, Len(s) - 1, <<>>)>>

\* Decimal numbers as <<sign, digits, exponent>>: 0.digits * 10^exponent, no zeros at the ends.
RECURSIVE StripLeft(_)
StripLeft(d) == IF d # <<>> /\ d[1] = "0" THEN StripLeft(Tail(d)) ELSE d
RECURSIVE StripRight(_)
StripRight(d) == IF d # <<>> /\ d[Len(d)] = "0" THEN StripRight(SubSeq(d, 1, Len(d) - 1)) ELSE d

RECURSIVE NatOf(_)
NatOf(d) == IF d = <<>> THEN 0
            ELSE 10 * NatOf(SubSeq(d, 1, Len(d) - 1)) + HexDigit(d[Len(d)])

Decimal(s) ==
  LET p == IF At(s, 1) = "-" THEN 2 ELSE 1
      whole == Run(s, p, Digits)
      frac == IF At(s, whole) = "." THEN Run(s, whole + 1, Digits) ELSE whole
      e == IF At(s, frac) \in {"e", "E"}
           THEN IF At(s, frac + 1) = "-" THEN 0 - NatOf(SubSeq(s, frac + 2, Len(s)))
                ELSE IF At(s, frac + 1) = "+" THEN NatOf(SubSeq(s, frac + 2, Len(s)))
                ELSE NatOf(SubSeq(s, frac + 1, Len(s)))
           ELSE 0
      all == SubSeq(s, p, whole - 1) \o (IF frac > whole THEN SubSeq(s, whole + 1, frac - 1) ELSE <<>>)
      left == StripLeft(all)
      digits == StripRight(left)
  IN IF digits = <<>> THEN <<"+", <<>>, 0>>
     ELSE <<IF p = 2 THEN "-" ELSE "+", digits, whole - p - (Len(all) - Len(left)) + e>>

IsHex(s) == \E p \in {1, 2} : At(s, p) = "0" /\ At(s, p + 1) = "x"
IsWhole(s) == \A p \in 1..Len(s) : s[p] \in Digits \cup {"-"}
Body(s) == IF At(s, 1) = "-" THEN Tail(s) ELSE s

MaxInt == Chars("9223372036854775807")
MinInt == Chars("9223372036854775808")
RECURSIVE DigitsLeq(_, _)
DigitsLeq(a, b) ==
  IF a = <<>> THEN TRUE
  ELSE IF a[1] = b[1] THEN DigitsLeq(Tail(a), Tail(b))
  ELSE HexDigit(a[1]) < HexDigit(b[1])
Leq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ DigitsLeq(a, b))

\* <<"hex", sign, digits>>, <<"dec", decimal>> an exact integer, <<"flt", decimal>> a float which
\* agrees with the decimal as far as floats do (15 digits), <<"flt">> some float.
NumberValue(s) ==
  LET d == Decimal(s)
  IN IF IsHex(s)
     THEN LET digits == StripLeft([k \in 1..(Len(Body(s)) - 2) |-> Fold(Body(s)[k + 2])])
          IN IF Len(digits) > 15 THEN Unspecified
             ELSE <<"hex", IF digits # <<>> /\ At(s, 1) = "-" THEN "-" ELSE "+", digits>>
     ELSE IF IsWhole(s)
     THEN IF Len(Body(s)) > 1 /\ Body(s)[1] = "0" THEN Unspecified
          ELSE IF Leq(Body(s), IF At(s, 1) = "-" THEN MinInt ELSE MaxInt) THEN <<"dec", d>>
          ELSE <<"flt">>
     ELSE IF Len(d[2]) > 15 THEN <<"flt">>
     ELSE IF d[3] > 300 \/ d[3] < 0 - 290 THEN Unspecified
     ELSE <<"flt", d>>
===============================================================================
