------------------------------ MODULE VQLValues ------------------------------
(***************************************************************************)
(* The VQL value domain and the operator protocols over it.                *)
(*                                                                         *)
(* A value is a tuple whose first element is its kind:                     *)
(*   <<"null">>  <<"bool", b>>  <<"int", n>>  <<"flt", n>> (n/64)          *)
(*   <<"str", s>>  <<"arr", <<v, ...>>>>  <<"dict", <<<<k, v>>, ...>>>>    *)
(* and the first class query/function values of VQL.tla                    *)
(*   "rows" (materialized query), "select", "squery", "sexpr", "callsite". *)
(* <<"undef">> marks a value outside the modelled number range: it is      *)
(* never compared with the implementation.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Null == <<"null">>
Undef == <<"undef">>
BoolV(b) == <<"bool", b>>
IntV(n) == <<"int", n>>
FltV(n) == <<"flt", n>>
StrV(s) == <<"str", s>>
ArrV(s) == <<"arr", s>>
DictV(s) == <<"dict", s>>

K(v) == v[1]

\* The same sequence, with all its elements evaluated (once, by TLC).
Tuple(s) == s \o <<>>
IsNull(v) == v[1] = "null"
IsUndef(v) == v[1] = "undef"
IsNum(v) == v[1] \in {"int", "flt", "bool"}
IsQuery(v) == v[1] \in {"rows", "select", "squery", "callsite", "qwrap"}

\* Numeric value in 64ths.
Num(v) == CASE v[1] = "int"  -> v[2] * 64
            [] v[1] = "flt"  -> v[2]
            [] v[1] = "bool" -> IF v[2] THEN 64 ELSE 0

Abs(n) == IF n < 0 THEN -n ELSE n
MaxInt == 1000000
MaxFlt == 64000000

MkInt(n) == IF Abs(n) > MaxInt THEN Undef ELSE IntV(n)
MkFlt(n) == IF Abs(n) > MaxFlt THEN Undef ELSE FltV(n)

\* Go integer conversion of a number (truncation towards zero).
TruncDiv(a, b) == LET q == Abs(a) \div Abs(b)
                  IN IF (a < 0) # (b < 0) THEN -q ELSE q
ToInt(v) == CASE v[1] = "int" -> v[2]
              [] v[1] = "flt" -> TruncDiv(v[2], 64)
              [] v[1] = "bool" -> IF v[2] THEN 1 ELSE 0

(***************************************************************************)
(* Strings                                                                 *)
(***************************************************************************)
Alphabet ==
  " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

Char(s, i) == SubSeq(s, i, i)

CharCode == [c \in {SubSeq(Alphabet, i, i) : i \in 1..Len(Alphabet)} |->
               31 + CHOOSE i \in 1..Len(Alphabet) : SubSeq(Alphabet, i, i) = c] @@ ("\n" :> 10)

RECURSIVE StrLtFrom(_, _, _)
StrLtFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE LET ca == CharCode[Char(a, i)]
           cb == CharCode[Char(b, i)]
       IN IF ca # cb THEN ca < cb ELSE StrLtFrom(a, b, i + 1)
StrLt(a, b) == StrLtFrom(a, b, 1)

StrContains(hay, needle) ==
  \E i \in 0..(Len(hay) - Len(needle)) :
     SubSeq(hay, i + 1, i + Len(needle)) = needle

LowerCh(c) == LET k == CharCode[c]
              IN IF k >= 65 /\ k <= 90 THEN SubSeq(Alphabet, k + 1, k + 1) ELSE c
RECURSIVE Lower(_)
Lower(s) == IF Len(s) = 0 THEN "" ELSE LowerCh(Char(s, 1)) \o Lower(SubSeq(s, 2, Len(s)))

RECURSIVE StrRepeat(_, _)
StrRepeat(s, n) == IF n <= 0 THEN "" ELSE s \o StrRepeat(s, n - 1)

RECURSIVE FlattenSeq2(_)
FlattenSeq2(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenSeq2(Tail(ss))

(***************************************************************************)
(* Dicts: sequences of <<key, value>> pairs, keys unique, order kept.      *)
(***************************************************************************)
HasKey(pairs, k) == \E i \in 1..Len(pairs) : pairs[i][1] = k
KeyIdx(pairs, k) == CHOOSE i \in 1..Len(pairs) : pairs[i][1] = k
DGet(pairs, k) == pairs[KeyIdx(pairs, k)][2]
\* Setting a key again moves it to the end.
DSet(pairs, k, v) == Append(SelectSeq(pairs, LAMBDA p : p[1] # k), <<k, v>>)
KeysOf(pairs) == [i \in 1..Len(pairs) |-> pairs[i][1]]

(***************************************************************************)
(* Truth.  Numbers are true when positive.                                 *)
(***************************************************************************)
Truth(v) ==
  CASE v[1] = "null" -> FALSE
    [] v[1] = "undef" -> FALSE
    [] v[1] = "bool" -> v[2]
    [] v[1] = "int"  -> v[2] > 0
    [] v[1] = "flt"  -> v[2] > 0
    [] v[1] = "str"  -> Len(v[2]) > 0
    [] v[1] = "arr"  -> Len(v[2]) > 0
    [] v[1] = "dict" -> Len(v[2]) > 0
    [] v[1] = "rows" -> Len(v[2]) > 0
    [] OTHER -> FALSE

(***************************************************************************)
(* Comparison                                                              *)
(***************************************************************************)
RECURSIVE EqV(_, _)
EqV(a, b) ==
  CASE IsNull(a) \/ IsNull(b) -> IsNull(a) /\ IsNull(b)
    [] IsNum(a) /\ IsNum(b) -> Num(a) = Num(b)
    [] K(a) = "str" /\ K(b) = "str" -> a[2] = b[2]
    [] K(a) = "arr" /\ K(b) = "arr" ->
          Len(a[2]) = Len(b[2]) /\ \A i \in 1..Len(a[2]) : EqV(a[2][i], b[2][i])
    [] K(a) = "dict" /\ K(b) = "dict" ->
          Len(a[2]) = Len(b[2]) /\
          \A i \in 1..Len(a[2]) :
             HasKey(b[2], a[2][i][1]) /\ EqV(a[2][i][2], DGet(b[2], a[2][i][1]))
    [] OTHER -> FALSE

LtV(a, b) ==
  CASE IsNum(a) /\ IsNum(b) -> Num(a) < Num(b)
    [] K(a) = "str" /\ K(b) = "str" -> StrLt(a[2], b[2])
    [] OTHER -> FALSE

GtV(a, b) == LtV(b, a)

CmpV(op, a, b) ==
  CASE op = "="  -> EqV(a, b)
    [] op = "!=" -> ~EqV(a, b)
    [] op = "<>" -> ~EqV(a, b)
    [] op = "<"  -> LtV(a, b)
    [] op = ">"  -> GtV(a, b)
    [] op = "<=" -> LtV(a, b) \/ EqV(a, b)
    [] op = ">=" -> GtV(a, b) \/ EqV(a, b)

MemberV(a, b) ==
  CASE K(b) = "dict" -> K(a) = "str" /\ HasKey(b[2], a[2])
    [] K(b) = "str"  -> K(a) = "str" /\ StrContains(b[2], a[2])
    [] K(b) = "arr"  -> \E i \in 1..Len(b[2]) : EqV(a, b[2][i])
    [] OTHER -> FALSE

(* Case insensitive search. Patterns are literals with optional ^ and $.   *)
RECURSIVE MatchV(_, _)
MatchV(target, pat) ==
  IF K(pat) # "str" THEN FALSE
  ELSE IF pat[2] \in {"", ".", ".*"} THEN TRUE
  ELSE CASE K(target) = "str" ->
              LET p0 == Lower(pat[2])
                  t  == Lower(target[2])
                  anch == Len(p0) > 0 /\ Char(p0, 1) = "^"
                  p1 == IF anch THEN SubSeq(p0, 2, Len(p0)) ELSE p0
                  tail == Len(p1) > 0 /\ Char(p1, Len(p1)) = "$"
                  p  == IF tail THEN SubSeq(p1, 1, Len(p1) - 1) ELSE p1
              IN \E i \in 0..(Len(t) - Len(p)) :
                    /\ SubSeq(t, i + 1, i + Len(p)) = p
                    /\ anch => i = 0
                    /\ tail => i = Len(t) - Len(p)
         [] K(target) = "arr" ->
              \E i \in 1..Len(target[2]) : MatchV(target[2][i], pat)
         [] OTHER -> FALSE

(***************************************************************************)
(* Arithmetic                                                              *)
(***************************************************************************)
AsSlice(v) == IF K(v) \in {"arr", "rows"} THEN v[2] ELSE <<v>>

AddV(a, b) ==
  CASE IsUndef(a) \/ IsUndef(b) -> Undef
    [] IsNull(a) -> Null
    [] K(a) = "str" /\ K(b) = "str" -> StrV(a[2] \o b[2])
    [] K(a) = "int" /\ K(b) = "int" -> MkInt(a[2] + b[2])
    [] K(a) = "int" /\ K(b) = "flt" -> MkFlt(Num(a) + Num(b))
    [] K(a) = "flt" /\ IsNum(b) -> MkFlt(Num(a) + Num(b))
    [] K(a) = "arr" \/ K(b) = "arr" -> ArrV(AsSlice(a) \o AsSlice(b))
    [] K(a) = "rows" /\ K(b) = "rows" -> ArrV(a[2] \o b[2])
    [] OTHER -> Null

SubV(a, b) ==
  CASE IsUndef(a) \/ IsUndef(b) -> Undef
    [] IsNum(a) /\ IsNum(b) ->
         IF K(a) = "flt" \/ K(b) = "flt" THEN MkFlt(Num(a) - Num(b))
         ELSE MkInt(ToInt(a) - ToInt(b))
    [] OTHER -> Null

MulV(a, b) ==
  CASE IsUndef(a) \/ IsUndef(b) -> Undef
    [] K(a) = "str" /\ IsNum(b) ->
         IF Len(a[2]) * Abs(ToInt(b)) > 2000 THEN Undef
         ELSE IF ToInt(b) < 0 THEN Null
         ELSE StrV(StrRepeat(a[2], ToInt(b)))
    [] IsNum(a) /\ IsNum(b) ->
         IF Abs(Num(a)) > 30000 \/ Abs(Num(b)) > 30000
         THEN IF K(a) = "flt" \/ K(b) = "flt" THEN Undef
              ELSE IF Abs(ToInt(a)) > 30000 \/ Abs(ToInt(b)) > 30000 THEN Undef
              ELSE MkInt(ToInt(a) * ToInt(b))
         ELSE IF K(a) = "flt" \/ K(b) = "flt"
              THEN IF (Num(a) * Num(b)) % 64 # 0 THEN Undef
                   ELSE MkFlt(TruncDiv(Num(a) * Num(b), 64))
              ELSE MkInt(ToInt(a) * ToInt(b))
    [] OTHER -> Null

DivV(a, b) ==
  CASE IsUndef(a) \/ IsUndef(b) -> Undef
    [] IsNum(a) /\ IsNum(b) ->
         IF Num(b) = 0 THEN Null
         ELSE IF Abs(Num(a)) > 30000000 THEN Undef
         ELSE IF (Abs(Num(a)) * 64) % Abs(Num(b)) # 0 THEN Undef
         ELSE MkFlt(TruncDiv(Num(a) * 64, Num(b)))
    [] OTHER -> Null

NegV(v) ==
  CASE K(v) = "bool" -> BoolV(~v[2])
    [] K(v) = "flt" -> FltV(-v[2])
    [] K(v) = "int" -> IntV(-v[2])
    [] IsUndef(v) -> Undef
    [] OTHER -> Null

(***************************************************************************)
(* Index and slice.  The result is NULL when there is no such element.     *)
(***************************************************************************)
IndexV(v, i) ==
  LET n == Len(v[2])
      j == IF i < 0 THEN n + i ELSE i
  IN CASE K(v) = "null" -> Null
       [] K(v) \in {"arr", "rows"} ->
            IF j < 0 \/ j >= n THEN Null ELSE v[2][j + 1]
       [] K(v) = "str" ->
            IF j < 0 \/ j >= n THEN Null ELSE IntV(CharCode[Char(v[2], j + 1)])
       [] OTHER -> Null

Max0(n) == IF n < 0 THEN 0 ELSE n
SliceV(v, hasLo, lo, hasHi, hi) ==
  IF K(v) \notin {"arr", "str", "rows"} THEN Null
  ELSE LET n == Len(v[2])
           s0 == IF hasLo THEN lo ELSE 0
           s == Max0(IF s0 < 0 THEN n + s0 ELSE s0)
           e0 == IF hasHi THEN hi ELSE n
           e1 == Max0(IF e0 < 0 THEN n + e0 ELSE e0)
           e == IF e1 > n THEN n ELSE e1
       IN IF e <= s THEN (IF K(v) = "str" THEN StrV("") ELSE ArrV(<<>>))
          ELSE IF K(v) = "str" THEN StrV(SubSeq(v[2], s + 1, e))
          ELSE ArrV(SubSeq(v[2], s + 1, e))

(***************************************************************************)
(* Grouping key: values are told apart by their string form.  Numbers with *)
(* the same value have the same string form; strings that look like        *)
(* another value's form are not generated.                                 *)
(***************************************************************************)
RECURSIVE KeyForm(_)
KeyForm(v) ==
  CASE K(v) = "int" -> <<"num", v[2] * 64>>
    [] K(v) = "flt" -> <<"num", v[2]>>
    [] K(v) = "arr" -> <<"arr", Tuple([i \in 1..Len(v[2]) |-> KeyForm(v[2][i])])>>
    [] K(v) = "dict" -> <<"dict", Tuple([i \in 1..Len(v[2]) |-> <<v[2][i][1], KeyForm(v[2][i][2])>>])>>
    [] OTHER -> v

\* Values of a single grouping column which are lists or dicts with strings
\* inside may have the same string form without being the same.
RECURSIVE Stringy(_)
Stringy(v) ==
  CASE K(v) = "str" -> TRUE
    [] K(v) = "arr" -> \E i \in 1..Len(v[2]) : Stringy(v[2][i])
    [] K(v) = "dict" -> \E i \in 1..Len(v[2]) : Stringy(v[2][i][2])
    [] OTHER -> FALSE
=============================================================================
