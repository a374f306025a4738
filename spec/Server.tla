------------------------------- MODULE Server -------------------------------
(* The evaluation endpoint: which bodies it accepts, what it is asked, what it answers.
   A body is [whole, members]; whole is "object" or tells what else was sent ("cut", "trailing", "bytes", "other").
   A member is <<key, value>>; a value is [k |-> "str", s |-> text], [k |-> "num", neg, d |-> digits, e |-> exponent],
   [k |-> "obj", m |-> members] or [k |-> "null" | "bool" | "arr"]. *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL INSTANCE SequencesExt

Types == {"decimal", "float", "integer", "complex", "binary"}
Fields == {"expression", "type", "variables"}
Null == [k |-> "null"]

At(b, f) == LET is == {i \in DOMAIN b.members : b.members[i][1] = f} IN IF is = {} THEN Null ELSE b.members[CHOOSE i \in is : TRUE][2]
Once(b, f) == Cardinality({i \in DOMAIN b.members : b.members[i][1] = f}) <= 1

Accepts(b) ==
  /\ b.whole = "object"
  /\ \A f \in Fields : Once(b, f)
  /\ At(b, "expression").k = "str"
  /\ LET t == At(b, "type") IN t.k = "null" \/ (t.k = "str" /\ t.s \in Types)
  /\ LET v == At(b, "variables") IN v.k = "null" \/ (v.k = "obj" /\ \A i \in DOMAIN v.m : v.m[i][2].k \in {"str", "num"})

(* How a number is written: digits d (no zero at either end; none for 0) times ten to the e. *)
Zeros(n) == [i \in 1..n |-> "0"]
NumText(v) ==
  LET d == v.d n == Len(d) IN
  (IF v.neg THEN <<"-">> ELSE <<>>) \o
  (IF n = 0 THEN <<"0">>
   ELSE IF v.e >= 0 THEN d \o Zeros(v.e)
   ELSE IF n + v.e > 0 THEN SubSeq(d, 1, n + v.e) \o <<".">> \o SubSeq(d, n + v.e + 1, n)
   ELSE <<"0", ".">> \o Zeros(0 - v.e - n) \o d)
ValueText(v) == IF v.k = "num" THEN NumText(v) ELSE v.s

(* What an accepted body asks: a type, the variables (of two with one name, the last), an expression. *)
Asked(b) ==
  LET v == At(b, "variables") t == At(b, "type") m == IF v.k = "obj" THEN v.m ELSE <<>> IN
  [type |-> IF t.k = "null" THEN "decimal" ELSE t.s,
   set |-> {<<m[i][1], ValueText(m[i][2])>> : i \in {j \in DOMAIN m : \A h \in (j + 1)..Len(m) : m[h][1] # m[j][1]}},
   text |-> At(b, "expression").s]

(* The answer, given what the library makes of the question: [k |-> "ok", v |-> text] or another k. *)
Answer(b, bare, lib) ==
  IF ~Accepts(b) THEN [code |-> 400, form |-> "json", result |-> FALSE, error |-> TRUE, v |-> <<>>]
  ELSE IF lib.k # "ok" THEN [code |-> 200, form |-> "json", result |-> FALSE, error |-> TRUE, v |-> <<>>]
  ELSE IF bare THEN [code |-> 200, form |-> "text", result |-> FALSE, error |-> FALSE, v |-> lib.v]
  ELSE [code |-> 200, form |-> "json", result |-> TRUE, error |-> FALSE, v |-> lib.v]
=============================================================================
