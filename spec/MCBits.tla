------------------------------- MODULE MCBits -------------------------------
(* The bit operations against the integers they stand for, for all values of a small width. *)
EXTENDS Integers, Sequences, TLC
CONSTANT W
B == INSTANCE Bits
VARIABLES a, b
Bit == [1..W -> {0, 1}]
RECURSIVE Sum(_, _)
Sum(x, i) == IF i = 0 THEN 0 ELSE Sum(x, i - 1) + (IF i = W THEN -1 ELSE 1) * x[i] * 2 ^ (i - 1)
Int2(x) == Sum(x, W)
Init == a \in Bit /\ b = [i \in 1..W |-> 0]
Next == b' \in Bit /\ UNCHANGED a
Num(x) == IF x = B!Zeros THEN 0 ELSE 1
Two == \A x \in {a, b} : Int2(B!Not(x)) = -1 - Int2(x)
Meaning ==
  /\ Int2(B!And(a, b)) + Int2(B!Or(a, b)) = Int2(a) + Int2(b)
  /\ Int2(B!Xor(a, b)) = Int2(B!Or(a, b)) - Int2(B!And(a, b))
  /\ B!Not(B!And(a, b)) = B!Or(B!Not(a), B!Not(b))
  /\ B!Less(a, b) = (Int2(a) < Int2(b))
  /\ B!Negative(a) = (Int2(a) < 0)
  /\ Int2(a) > -(2 ^ (W - 1)) => Int2(B!Negated(a)) = -Int2(a)
Shifts ==
  LET n == B!Amount(b) IN
  /\ (n >= 0) = (Int2(b) >= 0 /\ Int2(b) < W) /\ (n >= 0 => n = Int2(b))
  /\ n >= 0 => /\ Int2(B!Shr(a, n)) = Int2(a) \div 2 ^ n
               /\ (Int2(B!Shl(a, n)) - Int2(a) * 2 ^ n) % (2 ^ W) = 0
ReadsBack == ~B!Negative(a) => B!Literal(<<"b">> \o B!Shown(a)) = B!Val(a)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<B!Digits[n + 1]>> ELSE Dec(n \div 10) \o <<B!Digits[(n % 10) + 1]>>
Decimals == ~B!Negative(a) => B!Literal(Dec(Int2(a))) = B!Val(a) /\ B!SignedLit(<<"-">> \o Dec(Int2(a))) = B!Val(B!Negated(a))
TooLarge == B!Literal(Dec(2 ^ (W - 1))) = B!Fail /\ B!SignedLit(<<"-">> \o Dec(2 ^ (W - 1))) = B!Val(B!Least)
=============================================================================
