------------------------------ MODULE MCVocab ------------------------------
(* Every function of every context with every number of arguments, and every operator: each state is
   a use that is written out with what the specification says of it. *)
EXTENDS Vocab, Json, IOUtils, CSV
CONSTANTS MaxArgs
OutFile == IOEnv.VH_OUT
VARIABLES use
None == [fam |-> "", kind |-> "", name |-> "", n |-> 0, takes |-> FALSE, as |-> ""]
Init == use = None
Call(f, fn, n) == use' = [fam |-> f, kind |-> "fn", name |-> fn, n |-> n, takes |-> Takes(f, fn, n), as |-> fn]
First(s) == CHOOSE x \in s : \A y \in s : Len(x) <= Len(y)
Operate(f, k, o) == use' = [fam |-> f, kind |-> k, name |-> o, n |-> IF k = "bin" THEN 2 ELSE 1, takes |-> TRUE, as |-> First(Same(f, o))]
Next == /\ use = None
        /\ \E f \in Families :
             \/ \E fn \in Funs(f), n \in 0..MaxArgs : Call(f, fn, n)
             \/ \E b \in Bins(f) : Operate(f, "bin", b.name)
             \/ \E u \in Unas(f) : Operate(f, "una", u.name)
             \/ \E k \in Consts(f) : use' = [fam |-> f, kind |-> "const", name |-> k, n |-> 0, takes |-> TRUE, as |-> k]
Spec == Init /\ [][Next]_use
Disjoint == \A f \in Families : NoShadow(f)
EachTakesSome == \A f \in Families : \A fn \in Funs(f) : \E n \in 0..2 : Takes(f, fn, n)
Emitted == use # None => CSVWrite("%1$s", <<ToJson(use)>>, OutFile)
=============================================================================
