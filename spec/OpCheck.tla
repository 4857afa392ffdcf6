------------------------------- MODULE OpCheck -------------------------------
(***************************************************************************)
(* Conformance of the operators to VQLValues.tla, on recorded results of   *)
(* every operator on pairs of values in both orders.  A record has the two *)
(* values, their kinds, their ranks among the numbers (exact order, also   *)
(* for numbers TLC can not calculate with), and the results.               *)
(*                                                                         *)
(* Laws hold for all values; Exact holds where the values are modelled.    *)
(***************************************************************************)
EXTENDS VQLValues, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VQL_CASES)
W == 8

T(x) == x = BoolV(TRUE)
IsB(x) == K(x) = "bool"

\* ---- the comparison algebra, for any two values
Laws(c) ==
  LET p == c.ab
      q == c.ba
  IN /\ \A f \in {"eq", "ne", "nn", "lt", "le", "gt", "ge"} : IsB(p[f]) /\ IsB(q[f])
     /\ p.eq = q.eq
     /\ T(p.ne) = ~T(p.eq)
     /\ T(p.nn) = ~T(p.eq)
     /\ p.lt = q.gt
     /\ p.gt = q.lt
     /\ Cardinality({f \in {"lt", "eq", "gt"} : T(p[f])}) <= 1
     /\ T(p.le) = (T(p.lt) \/ T(p.eq))
     /\ T(p.ge) = (T(p.gt) \/ T(p.eq))

\* ---- numbers by exact value, strings, NULL, kinds
Kinds(c) ==
  LET p == c.ab
      plain(k) == k \in {"num", "str", "null", "arr", "dict"}
  IN /\ c.ka = "num" /\ c.kb = "num" =>
          /\ T(p.lt) = (c.ra < c.rb)
          /\ T(p.eq) = (c.ra = c.rb)
          /\ T(p.gt) = (c.ra > c.rb)
          /\ T(p.tri)
     /\ c.ka = "str" /\ c.kb = "str" => T(p.tri)
     /\ plain(c.ka) /\ plain(c.kb) /\ c.ka # c.kb => ~T(p.eq) /\ ~T(p.lt) /\ ~T(p.gt)
     /\ c.ka = "null" \/ c.kb = "null" => ~T(p.lt) /\ ~T(p.gt) /\ (T(p.eq) = (c.ka = c.kb))

\* ---- results given by the specification
RECURSIVE Known(_)
Known(v) == CASE K(v) \in {"null", "bool", "int", "flt", "str"} -> TRUE
              [] K(v) = "arr" -> \A i \in 1..Len(v[2]) : Known(v[2][i])
              [] K(v) = "dict" -> \A i \in 1..Len(v[2]) : Known(v[2][i][2])
              [] OTHER -> FALSE

Is(obs, exp) == IsUndef(exp) \/ obs = exp

Cmps(c) ==
  (Known(c.a) /\ Known(c.b)) =>
     /\ c.ab.eq = BoolV(EqV(c.a, c.b))
     /\ c.ab.lt = BoolV(LtV(c.a, c.b))
     /\ c.ab.gt = BoolV(GtV(c.a, c.b))

Exact(c) ==
  LET p == c.ab
      a == c.a
      b == c.b
      arith == /\ Is(p.add, AddV(a, b))
               /\ Is(p.sub, SubV(a, b))
               /\ Is(p.mul, MulV(a, b))
               /\ Is(p.div, DivV(a, b))
      logic == /\ p.and = (IF ~Truth(a) THEN BoolV(FALSE) ELSE IF ~Truth(b) THEN BoolV(FALSE) ELSE b)
               /\ p.or = (IF Truth(a) THEN a ELSE b)
               /\ p.and2 = BoolV(Truth(a) /\ Truth(b))
               /\ Truth(p.or2) = (Truth(a) \/ Truth(b))
               /\ p.not = BoolV(~Truth(a))
               /\ p.truth = IntV(IF Truth(a) THEN 1 ELSE 0)
               /\ Is(p.neg, NegV(a))
      member == /\ p.in = BoolV(MemberV(a, b))
                \* as patterns only literals are modelled
                /\ K(b) = "str" /\ ~(\E i \in 1..Len(b[2]) : Char(b[2], i) \in {".", "+", "*"}) =>
                     p.re = BoolV(MatchV(a, b))
                /\ K(b) # "str" => p.re = BoolV(FALSE)
      index == /\ IsNum(b) => p.idx = IndexV(a, ToInt(b))
               /\ IsNum(b) => p.lo = SliceV(a, TRUE, ToInt(b), FALSE, 0)
               /\ IsNum(b) => p.hi = SliceV(a, FALSE, 0, TRUE, ToInt(b))
               /\ K(b) = "str" /\ K(a) = "dict" =>
                    p.idx = IF HasKey(a[2], b[2]) THEN DGet(a[2], b[2]) ELSE Null
               /\ K(b) = "str" /\ K(a) \in {"int", "flt", "bool", "str", "null"} => p.idx = Null
               /\ ~IsNum(b) => p.lo = Null /\ p.hi = Null
               /\ p.sl = ArrV([k \in 1..6 |->
                            IF IsNum(b) THEN SliceV(a, TRUE, ToInt(b), TRUE, <<-3, -1, 0, 1, 2, 4>>[k]) ELSE Null])
               /\ p.lst = ArrV(<<a, b>>)
               /\ K(a) = "dict" => p.mx = IF HasKey(a[2], "x") THEN DGet(a[2], "x") ELSE Null
               /\ K(a) \in {"int", "flt", "bool", "str", "null"} => p.mx = Null
               /\ K(a) = "arr" /\ Len(a[2]) > 0 /\ (\A k \in 1..Len(a[2]) : K(a[2][k]) = "dict") =>
                    p.mx = ArrV([k \in 1..Len(a[2]) |-> DGet(a[2][k][2], "x")])
               /\ K(a) # "arr" => p.mm = Null
  IN /\ (Known(a) /\ Known(b)) => arith /\ logic /\ member /\ index

\* ---- number kinds where the value itself is out of range
FloatK(v) == K(v) \in {"flt", "fltx"}
IntK(v) == K(v) \in {"int", "intx"}
NumKinds(c) ==
  LET p == c.ab
      fl == FloatK(c.a) \/ FloatK(c.b)
      in == IntK(c.a) /\ IntK(c.b)
  IN c.ka = "num" /\ c.kb = "num" /\ K(c.a) # "bool" /\ K(c.b) # "bool" =>
       /\ fl => FloatK(p.add) /\ FloatK(p.sub) /\ FloatK(p.mul)
       /\ in => IntK(p.add) /\ IntK(p.sub) /\ IntK(p.mul)
       /\ IF c.b \in {IntV(0), FltV(0)} THEN p.div = Null ELSE FloatK(p.div)

\* Kinds without a meaning give NULL or false.
Meaningless(c) ==
  LET p == c.ab
      odd(k, v) == k = "other"
  IN (odd(c.ka, c.a) /\ c.kb \in {"str", "dict"}) =>
       p.sub = Null /\ p.mul = Null /\ p.div = Null

Verdict(c) ==
  IF c.err # "" THEN "panic"
  ELSE IF ~Laws(c) THEN "laws"
  ELSE IF ~Kinds(c) THEN "kinds"
  ELSE IF ~Cmps(c) THEN "cmp"
  ELSE IF ~Exact(c) THEN "exact"
  ELSE IF ~NumKinds(c) THEN "numkinds"
  ELSE IF ~Meaningless(c) THEN "meaningless"
  ELSE "ok"

Expected(c) ==
  IF ~(Known(c.a) /\ Known(c.b)) THEN <<>>
  ELSE [eq |-> EqV(c.a, c.b), lt |-> LtV(c.a, c.b), add |-> AddV(c.a, c.b), sub |-> SubV(c.a, c.b),
        mul |-> MulV(c.a, c.b), div |-> DivV(c.a, c.b), in |-> MemberV(c.a, c.b), re |-> MatchV(c.a, c.b),
        neg |-> NegV(c.a)]

VARIABLES i, bad
Step(n) ==
  \E v \in {Verdict(Cases[n])} :
     /\ i' = n
     /\ bad' = IF v = "ok" THEN bad
               ELSE bad + (IF PrintT("MISMATCH " \o ToJson([id |-> Cases[n].id, verdict |-> v,
                                                          exp |-> Expected(Cases[n])])) THEN 1 ELSE 1)
Init == \E n \in 1..W : i = n - W /\ bad = 0
Next == i + W <= Len(Cases) /\ Step(i + W)
Spec == Init /\ [][Next]_<<i, bad>>
=============================================================================
