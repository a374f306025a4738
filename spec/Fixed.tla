------------------------------- MODULE Fixed -------------------------------
(* Real numbers as whole multiples of 10^-24, with the elementary functions computed from their series. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
B == INSTANCE Big WITH Base <- 10000
Places == 6                                        \* digits of base 10^4 after the point

Drop(m, k) == IF Len(m) <= k THEN <<>> ELSE SubSeq(m, k + 1, Len(m))
Shift(m, k) == IF m = <<>> THEN <<>> ELSE [i \in 1..k |-> 0] \o m
Int_(n) == LET w == B!Whole(n) IN [w EXCEPT !.m = Shift(w.m, Places)]
Zero == B!Zero
One == Int_(1)
Two == Int_(2)
Ten == Int_(10)
Pi == B!Mk(1, <<2643, 3846, 7932, 3589, 9265, 1415, 3>>)
PiHalf == B!Mk(1, B!NDivInt(Pi.m, 2))
TwoPi == B!Mk(1, B!NMulInt(Pi.m, 2))
(* 10^-k, 0 <= k <= 24 *)
Small(k) == LET r == (24 - k) % 4 p == IF r = 0 THEN 1 ELSE IF r = 1 THEN 10 ELSE IF r = 2 THEN 100 ELSE 1000 IN B!Mk(1, Shift(<<p>>, (24 - k) \div 4))

Add(a, b) == B!Add(a, b)
Sub(a, b) == B!Sub(a, b)
Neg(a) == B!Neg(a)
Abs(a) == B!Abs(a)
Lt(a, b) == B!Lt(a, b)
Le(a, b) == B!Le(a, b)
Larger(a, b) == IF Lt(a, b) THEN b ELSE a
Mul(a, b) == B!Mk(a.s * b.s, Drop(B!NMul(a.m, b.m), Places))
Sq(a) == Mul(a, a)
Div(a, b) == B!Mk(a.s * b.s, B!NDivMod(Shift(a.m, Places), b.m)[1])
DivInt(a, n) == B!Mk(a.s, B!NDivInt(a.m, n))      \* 0 < n <= 10^4
MulInt(a, n) == B!Mk(a.s, B!NMulInt(a.m, n))
Whole(a) == \A i \in 1..(IF Len(a.m) < Places THEN Len(a.m) ELSE Places) : a.m[i] = 0
Frac(a) == B!Mk(1, B!NTrim(SubSeq(a.m, 1, IF Len(a.m) < Places THEN Len(a.m) ELSE Places)))
Floor(a) == IF Whole(a) THEN a ELSE LET f == B!Mk(1, Shift(Drop(a.m, Places), Places)) IN IF a.s > 0 THEN f ELSE Sub(Neg(f), One)
Rem(a, b) == B!Rem(a, b)
(* a modulo p > 0, in [0, p) *)
Mod(a, p) == LET r == B!Rem(a, p) IN IF r.s < 0 THEN Add(r, p) ELSE r

(* ---- the angle's sine and cosine together ---- *)
LOCAL Upto(n) == [i \in 1..n |-> i]
Series(r, q, first, odd, n) ==
  FoldLeft(LAMBDA acc, k : LET t == Neg(DivInt(Mul(acc[2], q), IF odd THEN 2 * k * (2 * k + 1) ELSE 2 * k * (2 * k - 1))) IN <<Add(acc[1], t), t>>, <<first, first>>, Upto(n))[1]
(* |r| <= Pi *)
SinSmall(r) == Series(r, Sq(r), r, TRUE, 18)
CosSmall(r) == Series(r, Sq(r), One, FALSE, 18)
Centre(r, p) == LET m == Mod(r, p) IN IF Lt(DivInt(p, 2), m) THEN Sub(m, p) ELSE m
Sin(r) == SinSmall(Centre(r, TwoPi))
Cos(r) == CosSmall(Centre(r, TwoPi))
Rad(d) == DivInt(Mul(d, Pi), 180)
Deg(r) == Div(MulInt(r, 180), Pi)
SinDeg(d) == SinSmall(Rad(Centre(d, Int_(360))))
CosDeg(d) == CosSmall(Rad(Centre(d, Int_(360))))

(* ---- the exponential: 2^10 times smaller, then squared 10 times ---- *)
RECURSIVE Squared(_, _)
Squared(a, n) == IF n = 0 THEN a ELSE Squared(Sq(a), n - 1)
ExpUp(x) == LET r == DivInt(x, 1024) IN
  Squared(FoldLeft(LAMBDA acc, k : LET t == DivInt(Mul(acc[2], r), k) IN <<Add(acc[1], t), t>>, <<One, One>>, Upto(16))[1], 10)
Exp(x) == IF x.s = 0 THEN One ELSE IF x.s > 0 THEN ExpUp(x) ELSE Div(One, ExpUp(Neg(x)))
Cosh(x) == LET e == ExpUp(Abs(x)) IN DivInt(Add(e, Div(One, e)), 2)
Sinh(x) == LET e == ExpUp(Abs(x)) v == DivInt(Sub(e, Div(One, e)), 2) IN IF x.s < 0 THEN Neg(v) ELSE v

(* ---- the logarithm of x > 0: Halley's steps on e^y = x ---- *)
RECURSIVE LnFrom(_, _, _)
LnFrom(x, y, n) == LET e == Exp(y) d == MulInt(Div(Sub(x, e), Add(x, e)), 2) w == Add(y, d) IN
  IF n = 0 \/ Len(d.m) <= 1 THEN w ELSE LnFrom(x, w, n - 1)
(* e^y scaled: the arguments below 1 by their inverse, so that nothing is lost *)
LnUp(x) == LnFrom(x, DivInt(MulInt(One, 921 * (Len(x.m) - Places - 1)), 100), 14)
LnTab(x) == IF Lt(x, One) THEN Neg(LnUp(Div(One, x))) ELSE LnUp(x)
Ln(x) == IF x = One THEN Zero ELSE LnTab(x)

(* ---- x! for x > -1: Stirling's series of the logarithm of gamma far enough up, divided down ---- *)
LOCAL Terms == <<<<1, 12>>, <<-1, 360>>, <<1, 1260>>, <<-1, 1680>>, <<1, 1188>>>>
HalfLn2Pi == DivInt(Ln(TwoPi), 2)
LnGamma(z) ==
  LET i == Div(One, z) q == Sq(i)
      s == FoldLeft(LAMBDA acc, t : LET v == DivInt(acc[2], t[2]) IN <<Add(acc[1], IF t[1] < 0 THEN Neg(v) ELSE v), Mul(acc[2], q)>>, <<Zero, i>>, Terms)
  IN Add(Add(Sub(Mul(Sub(z, DivInt(One, 2)), Ln(z)), z), HalfLn2Pi), s[1])
RECURSIVE Rising(_, _)
Rising(z, n) == IF n = 0 THEN One ELSE Mul(z, Rising(Add(z, One), n - 1))
Up == 30
Fact(x) == LET z == Add(x, One) IN IF Lt(Int_(25), x) THEN Exp(LnGamma(z)) ELSE Div(Exp(LnGamma(Add(z, Int_(Up)))), Rising(z, Up))
=============================================================================
