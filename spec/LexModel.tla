------------------------------ MODULE LexModel ------------------------------
(***************************************************************************)
(* What the lexical grammar guarantees, on every source up to a length.    *)
(***************************************************************************)
EXTENDS VQLLex
CONSTANTS Alphabet, MaxLen
VARIABLE src

\* Characters with a part in some rule; longer pieces so that keywords are in reach.
Small == {<<"a">>, <<"e">>, <<"0">>, <<"x">>, <<"1">>, <<"-">>, <<"/">>, <<"*">>, <<"'">>, <<"\\">>,
          <<".">>, <<"=">>, <<"\n">>, <<"`">>}
Words == {Chars("or"), Chars("group"), Chars("BY"), Chars("in"), <<" ">>, <<"_">>, <<"1">>, <<"-">>, <<"|">>,
          <<"&">>, <<"\"">>, <<">">>, <<"=">>, <<"\n">>}

Init == src = <<>>
Next == Len(src) < MaxLen /\ \E a \in Alphabet : src' = Append(src, a)
Spec == Init /\ [][Next]_src

RECURSIVE Join(_)
Join(parts) == IF parts = <<>> THEN <<>> ELSE parts[1] \o Join(Tail(parts))

\* Nothing of the source is lost, repeated or reordered.
Partition(S, P) ==
  LET whole == IF Refused(P) THEN SubSeq(P, 1, Len(P) - 1) ELSE P
  IN /\ \A q \in 1..Len(whole) : whole[q][2] < whole[q][3]
     /\ \A q \in 2..Len(P) : P[q][2] = P[q - 1][3]
     /\ P # <<>> => P[1][2] = 1
     /\ ~Refused(P) => Join([q \in 1..Len(P) |-> Text(S, P[q])]) = S

\* The tokens on lines of their own are the same tokens.
RECURSIVE Lines(_)
Lines(parts) == IF parts = <<>> THEN <<>> ELSE parts[1] \o <<"\n">> \o Lines(Tail(parts))
Stable(S, P) ==
  LET toks == SelectSeq(P, IsToken)
      texts == [q \in 1..Len(toks) |-> Text(S, toks[q])]
      t == Lines(texts)
      again == SelectSeq(Pieces(t, 1), IsToken)
  IN ~Refused(P) =>
       /\ ~Refused(Pieces(t, 1))
       /\ [q \in 1..Len(again) |-> <<again[q][1], Text(t, again[q])>>]
          = [q \in 1..Len(toks) |-> <<toks[q][1], texts[q]>>]

\* A word is one token: no keyword is cut out of a longer word.
WholeWords(S, P) ==
  \A q \in 1..Len(P) : P[q][1] \notin {"none", "whitespace"} /\ At(S, P[q][2]) \in Letters =>
     At(S, P[q][3]) \notin Word

\* Space in front of a source changes no token.
Shift(S, P) ==
  LET t == <<"\n">> \o S
      again == SelectSeq(Pieces(t, 1), IsToken)
      toks == SelectSeq(P, IsToken)
  IN [q \in 1..Len(again) |-> <<again[q][1], again[q][2] - 1, again[q][3] - 1>>] = toks

Guarantees ==
  \E s \in {Join(src)} : \E p \in {Pieces(s, 1)} :
     Partition(s, p) /\ Stable(s, p) /\ WholeWords(s, p) /\ Shift(s, p)
===============================================================================
