------------------------------ MODULE MCInts ------------------------------
(* A calculator over a small type: an accumulator that every operation replaces with its exact
   result or ends with an error. Checks Ints against TLC's own integers, and writes every behaviour
   out for its replay. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Bits, Chosen, Few, Steps, Emit     \* Chosen: the operands, counted from the least value of the type
I == INSTANCE Ints
OutFile == IOEnv.VH_OUT
Ty == I!Signed(Bits)
Hi == 2 ^ (Bits - 1) - 1
Lo == -(2 ^ (Bits - 1))
\* Few: those that are given to functions
Operands == {x + Lo : x \in Chosen}
VARIABLES acc, prog, prev
vars == <<acc, prog, prev>>
Back(x) == x.s * (IF x.m = <<>> THEN 0 ELSE x.m[1])
Ops == {"+", "-", "*", "/", "mod"}
Init == acc \in {I!Ok(I!Whole(x)) : x \in Operands} /\ prog = <<[t |-> "n", v |-> Back(acc.v), o |-> "", n |-> 0]>> /\ prev = acc
Apply(r, ins) == acc' = r /\ prog' = prog \o ins /\ prev' = acc
Ins(t, v, o, n) == [t |-> t, v |-> v, o |-> o, n |-> n]
Next ==
  /\ acc.k = "ok" /\ Len(prog) < 2 * Steps
  /\ \/ \E o \in Ops, x \in Operands : Apply(I!Bin(Ty, o, acc.v, I!Whole(x)), <<Ins("n", x, "", 0), Ins("bin", 0, o, 0)>>)
     \/ \E o \in Ops, x \in Operands : Len(prog) > 1 /\ Apply(I!Bin(Ty, o, I!Whole(x), acc.v), <<Ins("n", x, "", 0), Ins("rev", 0, o, 0)>>)
     \/ \E o \in {"-", "!"} : Apply(I!Una(Ty, o, acc.v), <<Ins("una", 0, o, 0)>>)
     \/ Apply(I!Fun(Ty, "abs", <<acc.v>>), <<Ins("fn", 0, "abs", 1)>>)
     \/ \E f \in {"sum", "product", "avg", "max", "min"}, x, y \in {a + Lo : a \in Few} :
          Apply(I!Fun(Ty, f, <<acc.v, I!Whole(x), I!Whole(y)>>), <<Ins("n", x, "", 0), Ins("n", y, "", 0), Ins("fn", 0, f, 3)>>)
Spec == Init /\ [][Next]_vars
Bounded == acc.k = "ok" => Back(acc.v) >= Lo /\ Back(acc.v) <= Hi
(* the same by TLC's own integers *)
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Mag(x) == IF x < 0 THEN -x ELSE x
Q(a, b) == Sgn(a) * Sgn(b) * (Mag(a) \div Mag(b))
RECURSIVE F(_)
F(n) == IF n <= 1 THEN 1 ELSE IF n > 10 THEN 4000000 ELSE n * F(n - 1)
Direct(o, a, b) == CASE o = "+" -> a + b [] o = "-" -> a - b [] o = "*" -> a * b [] o = "/" -> IF b = 0 THEN Hi + 1 ELSE Q(a, b)
                   [] o = "mod" -> IF b = 0 \/ Q(a, b) > Hi THEN Hi + 1 ELSE a - Q(a, b) * b
Fits(x) == IF x >= Lo /\ x <= Hi THEN I!Ok(I!Whole(x)) ELSE I!Fail
AgreesWithDirect ==
  Len(prog) > 1 =>
    LET z == prog[Len(prog)] y == prog[Len(prog) - 1].v p == Back(prev.v) IN
    /\ z.t = "bin" => acc = Fits(Direct(z.o, p, y))
    /\ z.t = "rev" => acc = Fits(Direct(z.o, y, p))
    /\ (z.t = "una" /\ z.o = "-") => acc = Fits(-p)
    /\ (z.t = "una" /\ z.o = "!") => acc = IF p < 0 THEN I!Fail ELSE Fits(F(p))
    /\ (z.t = "fn" /\ z.o = "max") => acc = Fits(CHOOSE m \in {p, y, prog[Len(prog) - 2].v} : \A x \in {p, y, prog[Len(prog) - 2].v} : x <= m)
    /\ (z.t = "fn" /\ z.o = "sum" /\ acc.k = "ok") => acc = Fits(p + y + prog[Len(prog) - 2].v)
(* the order of the arguments decides only between a value and an error *)
OrderOfSum ==
  \A x, y \in Operands : acc.k = "ok" =>
    LET a == I!Fun(Ty, "sum", <<acc.v, I!Whole(x), I!Whole(y)>>) b == I!Fun(Ty, "sum", <<I!Whole(y), acc.v, I!Whole(x)>>) IN
    (a.k = "ok" /\ b.k = "ok") => a = b
Emitted == Emit => CSVWrite("%1$s", <<ToJson([prog |-> prog, k |-> acc.k, v |-> Back(acc.v)])>>, OutFile)
=============================================================================
