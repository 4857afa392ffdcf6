------------------------------ MODULE OpAlgebra ------------------------------
(***************************************************************************)
(* The comparison algebra and arithmetic laws, checked on the operators of *)
(* VQLValues.tla for all pairs and triples of a universe of values.  The   *)
(* implementation is compared with these operators by OpCheck.tla.         *)
(***************************************************************************)
EXTENDS VQLValues

Ints == {-3, -1, 0, 1, 2, 7}
Flts == {-160, -64, 0, 32, 64, 96, 128}
Strs == {"", "a", "ab", "b", "B", "1", "zz"}
Base == {IntV(n) : n \in Ints} \union {FltV(n) : n \in Flts} \union {BoolV(b) : b \in BOOLEAN}
        \union {StrV(s) : s \in Strs} \union {Null}
Small == {IntV(1), FltV(64), IntV(2), StrV("a"), Null, BoolV(TRUE)}
Arrs == {ArrV(<<>>)} \union {ArrV(<<x>>) : x \in Small} \union {ArrV(<<x, y>>) : x, y \in Small}
Dicts == {DictV(<<>>)} \union {DictV(<<<<"x", x>>>>) : x \in Small}
         \union {DictV(<<<<"x", x>>, <<"y", y>>>>) : x, y \in {IntV(1), FltV(64), StrV("a")}}
         \union {DictV(<<<<"y", x>>, <<"x", y>>>>) : x, y \in {IntV(1), FltV(64), StrV("a")}}
U == Base \union Arrs \union Dicts

VARIABLES a, b, c
Init == a \in U /\ b \in U /\ c \in Base
Next == UNCHANGED <<a, b, c>>
Spec == Init /\ [][Next]_<<a, b, c>>

Kind(v) == IF IsNum(v) THEN "num" ELSE K(v)
Sym == EqV(a, b) = EqV(b, a)
Refl == EqV(a, a)
Mirror == LtV(a, b) = GtV(b, a)
AtMostOne == Cardinality({f \in {"lt", "eq", "gt"} :
                 CASE f = "lt" -> LtV(a, b) [] f = "eq" -> EqV(a, b) [] f = "gt" -> GtV(a, b)}) <= 1
Trichotomy == Kind(a) = Kind(b) /\ Kind(a) \in {"num", "str"} => LtV(a, b) \/ EqV(a, b) \/ GtV(a, b)
Kinds == Kind(a) # Kind(b) => ~EqV(a, b) /\ ~LtV(a, b) /\ ~GtV(a, b)
TransLt == LtV(a, b) /\ LtV(b, c) => LtV(a, c)
TransEq == EqV(a, b) /\ EqV(b, c) => EqV(a, c)
LtEq == LtV(a, b) /\ EqV(b, c) => LtV(a, c)
Composite == /\ CmpV("<=", a, b) = (LtV(a, b) \/ EqV(a, b))
             /\ CmpV(">=", a, b) = CmpV("<=", b, a)
             /\ CmpV("!=", a, b) = ~CmpV("=", a, b)
             /\ CmpV("<>", a, b) = CmpV("!=", a, b)
\* Grouping by string form never separates equal numbers of one kind nor joins unequal ones.
Keys == K(a) \in {"int", "str"} /\ K(a) = K(b) => (KeyForm(a) = KeyForm(b)) = EqV(a, b)
\* Arithmetic
AddSubInv == K(a) \in {"int", "flt"} /\ K(b) \in {"int", "flt"} =>
               EqV(SubV(AddV(a, b), b), a)
AddComm == IsNum(a) /\ IsNum(b) /\ K(a) # "bool" /\ K(b) # "bool" => AddV(a, b) = AddV(b, a)
MulComm == IsNum(a) /\ IsNum(b) => MulV(a, b) = MulV(b, a)
FloatWins == K(a) = "flt" /\ IsNum(b) =>
               /\ K(AddV(a, b)) = "flt" /\ K(SubV(a, b)) = "flt" /\ K(MulV(a, b)) \in {"flt", "undef"}
Member == K(b) = "arr" => MemberV(a, b) = \E i \in 1..Len(b[2]) : EqV(b[2][i], a)
Concat == K(a) = "arr" /\ K(b) = "arr" => Len(AddV(a, b)[2]) = Len(a[2]) + Len(b[2])
Cut == K(a) \in {"arr", "str"} /\ K(b) = "int" =>
         AddV(SliceV(a, FALSE, 0, TRUE, b[2]), SliceV(a, TRUE, b[2], FALSE, 0)) = a
=============================================================================
