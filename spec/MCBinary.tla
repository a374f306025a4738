------------------------------ MODULE MCBinary ------------------------------
(* Expressions of the binary context, operator by operator under every alias, with their values. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV
CONSTANTS Ops, Depth, Lits
W == 128
INSTANCE Bits
OutFile == IOEnv.VH_OUT
Lit(n) == CASE n = "0" -> <<"0">> [] n = "1" -> <<"1">> [] n = "2" -> <<"b", "1", "0">> [] n = "127" -> <<"1", "2", "7">> [] n = "5" -> <<"b", "0", "1", "0", "1">>
          [] n = "128" -> <<"1", "2", "8">> [] n = "max" -> <<"b">> \o [i \in 1..127 |-> "1"] [] n = "over" -> <<"b">> \o [i \in 1..128 |-> "1"]
Pos == {[t |-> "lit", s |-> Lit(n)] : n \in Lits}
Negs == {[t |-> "una", x |-> p] : p \in {q \in Pos : Len(q.s) < 100}}
VARIABLES e
Init == e \in {<<x>> : x \in Pos \cup Negs}
Next == Len(e) < 2 * Depth + 1 /\ \E o \in Binary : o \in Ops /\ \E x \in Pos \cup Negs : e' = e \o <<o, x>>
Spec == Init /\ [][Next]_e
(* adding an operator that binds less tight than all before it works on their value *)
LeftToRight ==
  (Len(e) > 3 /\ \A i \in DOMAIN e : i % 2 = 0 => Prec(e[Len(e) - 1]) <= Prec(e[i])) =>
     LET a == Value(SubSeq(e, 1, Len(e) - 2)) b == Operand(e[Len(e)]) IN Value(e) = IF a.k = "err" \/ b.k = "err" THEN Fail ELSE Apply2(e[Len(e) - 1], a.v, b.v)
Emitted == LET r == Value(e) IN CSVWrite("%1$s", <<ToJson([e |-> e, k |-> r.k, v |-> IF r.k = "ok" THEN Shown(r.v) ELSE <<>>])>>, OutFile)
=============================================================================
