------------------------------- MODULE MCBig -------------------------------
(* Big against TLC's own integers. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Base, Max
B == INSTANCE Big
VARIABLES a, b
Init == a \in -Max..Max /\ b = 0
Next == b = 0 /\ b' \in -Max..Max /\ UNCHANGED a
LOCAL Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
LOCAL Mag(x) == IF x < 0 THEN -x ELSE x
Good(x) == /\ \A i \in DOMAIN x.m : x.m[i] \in 0..(Base - 1)
           /\ x.m # <<>> => x.m[Len(x.m)] # 0
           /\ (x.s = 0) = (x.m = <<>>)
A == B!Whole(a)
C == B!Whole(b)
Arithmetic ==
  /\ Good(A)
  /\ B!Add(A, C) = B!Whole(a + b) /\ B!Sub(A, C) = B!Whole(a - b) /\ B!Mul(A, C) = B!Whole(a * b)
  /\ B!Cmp(A, C) = Sgn(a - b) /\ B!Neg(A) = B!Whole(-a) /\ B!Abs(A) = B!Whole(Mag(a))
Division == b # 0 =>
  LET q == Sgn(a) * Sgn(b) * (Mag(a) \div Mag(b)) IN
  B!Quot(A, C) = B!Whole(q) /\ B!Rem(A, C) = B!Whole(a - q * b)
Small == (0 <= a /\ 0 < b /\ b <= Base) => B!NDivInt(A.m, b) = B!NInt(a \div b) /\ B!NMulInt(A.m, b) = B!NInt(a * b)
Powers == \A k \in 1..4 : (Mag(a) <= 20) => B!Pow(A, k) = B!Whole(a ^ k)
=============================================================================
