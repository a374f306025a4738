------------------------------- MODULE MCCpx -------------------------------
(* Complex algebra: its laws, and a calculator whose behaviours are written out for their replay. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV
CONSTANTS Max, Lits, Steps, Emit
C == INSTANCE Cpx
B == INSTANCE Big WITH Base <- 10000
OutFile == IOEnv.VH_OUT
VARIABLES acc, prog, w
vars == <<acc, prog, w>>
Lit(n) == CASE n = "0" -> <<"0">> [] n = "1" -> <<"1">> [] n = "2" -> <<"2">> [] n = "i" -> <<"i">> [] n = "2i" -> <<"2", "i">> [] n = "0.5i" -> <<"0", ".", "5", "i">>
          [] n = "7" -> <<"7">> [] n = "3.25" -> <<"3", ".", "2", "5">> [] n = "12i" -> <<"1", "2", "i">> [] n = "0i" -> <<"0", "i">>
Ins(t, s, o, n) == [t |-> t, s |-> s, o |-> o, n |-> n]
Init == /\ acc \in {C!Whole(a, b) : a \in -Max..Max, b \in -Max..Max} /\ prog = <<>> /\ w = C!Whole(0, 0) /\ ~Emit
     \/ /\ \E n \in Lits : acc = C!Literal(Lit(n)) /\ prog = <<Ins("lit", Lit(n), "", 0)>>
        /\ w = C!Whole(0, 0) /\ Emit
Apply(r, ins) == acc' = (IF r.k = "ok" THEN r.v ELSE [acc EXCEPT !.m = B!Zero]) /\ prog' = prog \o ins /\ UNCHANGED w
Alive == acc.m # B!Zero
Calc == /\ Emit /\ Alive /\ Len(prog) < 2 * Steps
        /\ \/ \E n \in Lits, o \in {"+", "-", "*", "/"} : Apply(C!Bin(o, acc, C!Literal(Lit(n))), <<Ins("lit", Lit(n), "", 0), Ins("bin", <<>>, o, 0)>>)
           \/ Apply([k |-> "ok", v |-> C!Neg(acc)], <<Ins("neg", <<>>, "", 0)>>)
           \/ \E n \in -2..3 : Apply(C!Power(acc, n), <<Ins("pow", <<>>, "", n)>>)
           \/ \E f \in {"sum", "product", "avg"}, n \in Lits : Apply(C!Fun(f, <<acc, C!Literal(Lit(n))>>), <<Ins("lit", Lit(n), "", 0), Ins("fn", <<>>, f, 2)>>)
Pair == ~Emit /\ prog = <<>> /\ w' \in {C!Whole(a, b) : a \in -Max..Max, b \in -Max..Max} /\ prog' = <<Ins("lit", <<>>, "", 0)>> /\ UNCHANGED acc
Next == Calc \/ Pair
Spec == Init /\ [][Next]_vars
Eq(x, y) == B!Mul(x.re, B!Mk(1, y.d)) = B!Mul(y.re, B!Mk(1, x.d)) /\ B!Mul(x.im, B!Mk(1, y.d)) = B!Mul(y.im, B!Mk(1, x.d))
I1 == C!Whole(0, 1)
Laws == (~Emit /\ prog # <<>>) =>
  /\ Eq(C!Mul(acc, w), C!Mul(w, acc)) /\ Eq(C!Add(acc, w), C!Add(w, acc))
  /\ C!Norm(C!Mul(acc, w)) = B!NMul(C!Norm(acc), C!Norm(w))
  /\ Eq(C!Mul(C!Add(acc, w), I1), C!Add(C!Mul(acc, I1), C!Mul(w, I1)))
  /\ ~C!IsZero(w) => Eq(C!Mul(C!Div(acc, w), w), acc)
  /\ \A n \in 0..3 : Eq(C!PowN(C!Mul(acc, w), n).v, C!Mul(C!PowN(acc, n).v, C!PowN(w, n).v))
Unit == Eq(C!Mul(I1, I1), C!Whole(-1, 0))
Emitted == Emit => LET r == C!Run(prog) IN
  CSVWrite("%1$s", <<ToJson([prog |-> prog, k |-> r.k])>>, OutFile)
=============================================================================
