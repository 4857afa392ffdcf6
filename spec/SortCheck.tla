------------------------------ MODULE SortCheck ------------------------------
(***************************************************************************)
(* ORDER BY, on recorded results of sorting tables of up to thousands of   *)
(* rows.  A record has the keys of the source rows in order (a missing key *)
(* is <<"missing">>), the positions of the rows in the result, DESC and    *)
(* LIMIT.  The result is the first LIMIT rows of some sorted permutation.  *)
(***************************************************************************)
EXTENDS VQLValues, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VQL_CASES)
W == 8

None(v) == K(v) \in {"null", "missing"}
KeyLt(a, b) == IF None(a) THEN ~None(b)
               ELSE IF None(b) THEN FALSE
               ELSE LtV(a, b)
Before(a, b, desc) == IF desc THEN KeyLt(b, a) ELSE KeyLt(a, b)

Verdict(c) ==
  LET n == Len(c.keys)
      m == IF c.limit < 0 \/ c.limit > n THEN n ELSE c.limit
      ids == {c.out[j] : j \in 1..Len(c.out)}
      Key(j) == c.keys[c.out[j]]
  IN IF c.err # "" THEN "error"
     ELSE IF Len(c.out) # m \/ Cardinality(ids) # m \/ ~(ids \subseteq 1..n) THEN "rows"
     ELSE IF \E j \in 1..(m - 1) : Before(Key(j + 1), Key(j), c.desc) THEN "order"
     ELSE IF m > 0 /\ m < n /\ \E x \in (1..n) \ ids : Before(c.keys[x], Key(m), c.desc) THEN "limit"
     ELSE "ok"

VARIABLES i, bad
Step(n) ==
  \E v \in {Verdict(Cases[n])} :
     /\ i' = n
     /\ bad' = IF v = "ok" THEN bad
               ELSE bad + (IF PrintT("MISMATCH " \o ToJson([id |-> Cases[n].id, verdict |-> v])) THEN 1 ELSE 1)
Init == \E n \in 1..W : i = n - W /\ bad = 0
Next == i + W <= Len(Cases) /\ Step(i + W)
Spec == Init /\ [][Next]_<<i, bad>>
=============================================================================
