------------------------------- MODULE Causes -------------------------------
(* What an integer or decimal operation that fails says: a wrong count of arguments, a division or remainder by zero,
   the factorial of a negative number; everything else is a value the type cannot hold.
   An expression fails with the cause of the first operation in its postfix order that fails. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
INSTANCE Ints

(* ops: "bin", "una", "fn"; zero: the second operand is 0; neg: the first operand is negative; n: how many arguments *)
Cause(kind, o, zero, neg, n) ==
  CASE kind = "fn" /\ o \in {"max", "min"} /\ n < 2 -> "InvalidArgumentCount"
    [] kind = "bin" /\ o \in {"/", "mod"} /\ zero -> "DivisionByZero"
    [] kind = "una" /\ o = "!" /\ neg -> "NegativeValue"
    [] OTHER -> "Overflow"

CauseStep(ty, st, i) ==
  IF st.e # "" THEN st ELSE
  LET n == Len(st.s)
      take == CASE i.t = "n" -> 0 [] i.t = "bin" -> 2 [] i.t = "una" -> 1 [] i.t = "fn" -> i.n
      r == Step(ty, [ok |-> TRUE, s |-> st.s], i)
  IN IF r.ok THEN [s |-> r.s, e |-> ""]
     ELSE [s |-> <<>>, e |-> Cause(i.t, i.o, i.t = "bin" /\ st.s[n] = Zero, i.t = "una" /\ st.s[n].s < 0, take)]
CauseOfRun(ty, prog) == FoldLeft(LAMBDA s, i : CauseStep(ty, s, i), [s |-> <<>>, e |-> ""], prog).e
=============================================================================
