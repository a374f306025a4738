-------------------------------- MODULE Big --------------------------------
(* Integers of any size. A natural is the sequence of its digits in base Base, the lowest first and
   the highest not 0; an integer is [s |-> -1, 0 or 1, m |-> its magnitude]. Base is small enough for
   the columns of a product to stay in TLC's integers. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC
CONSTANT Base

NZero == <<>>
NOne == <<1>>
RECURSIVE NTrim(_)
NTrim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN NTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE NInt(_)
NInt(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o NInt(n \div Base)

LOCAL At(a, i) == IF 1 <= i /\ i <= Len(a) THEN a[i] ELSE 0
(* columns of any size (also negative ones) turned into digits; the value must not be negative *)
LOCAL Upto(n) == [i \in 1..n |-> i]
RECURSIVE Spill(_)
Spill(c) == IF c = 0 THEN <<>> ELSE <<c % Base>> \o Spill(c \div Base)
Carry(cols) ==
  LET r == FoldLeft(LAMBDA acc, x : LET t == x + acc[2] IN <<Append(acc[1], t % Base), t \div Base>>, <<<<>>, 0>>, cols)
  IN NTrim(r[1] \o Spill(r[2]))

LOCAL Longer(a, b) == IF Len(a) >= Len(b) THEN Len(a) ELSE Len(b)
NAdd(a, b) == Carry([i \in 1..Longer(a, b) |-> At(a, i) + At(b, i)])
NSub(a, b) == Carry([i \in 1..Longer(a, b) |-> At(a, i) - At(b, i)])     \* a >= b
LOCAL Least(x, y) == IF x <= y THEN x ELSE y
LOCAL Most(x, y) == IF x >= y THEN x ELSE y
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE
  Carry([k \in 1..(Len(a) + Len(b) - 1) |->
    FoldLeft(LAMBDA t, i : t + a[i] * b[k + 1 - i], 0, [j \in 1..(Least(k, Len(a)) - Most(1, k + 1 - Len(b)) + 1) |-> Most(1, k + 1 - Len(b)) + j - 1])])
NMulInt(a, n) == IF n = 0 THEN <<>> ELSE Carry([i \in 1..Len(a) |-> a[i] * n])   \* 0 <= n <= Base

(* -1, 0 or 1 *)
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpAt(a, b, i - 1)
NCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpAt(a, b, Len(a))

(* the largest digit d in lo..hi-1 with d * b <= a *)
RECURSIVE Digit(_, _, _, _)
Digit(a, b, lo, hi) ==
  IF hi - lo = 1 THEN lo
  ELSE LET mid == (lo + hi) \div 2 IN IF NCmp(NMulInt(b, mid), a) <= 0 THEN Digit(a, b, mid, hi) ELSE Digit(a, b, lo, mid)
(* quotient and remainder, b # 0 *)
NDivMod(a, b) ==
  IF NCmp(a, b) < 0 THEN <<NZero, a>> ELSE
  LET r == FoldLeft(LAMBDA acc, i :
             LET rem == NTrim(<<a[Len(a) + 1 - i]>> \o acc[2])
                 d == IF NCmp(rem, b) < 0 THEN 0 ELSE Digit(rem, b, 0, Base)
             IN <<<<d>> \o acc[1], IF d = 0 THEN rem ELSE NSub(rem, NMulInt(b, d))>>, <<<<>>, <<>>>>, Upto(Len(a)))
  IN <<NTrim(r[1]), r[2]>>
(* by a small number, 0 < n <= Base *)
NDivInt(a, n) ==
  LET r == FoldLeft(LAMBDA acc, i : LET t == acc[2] * Base + a[Len(a) + 1 - i] IN <<<<t \div n>> \o acc[1], t % n>>, <<<<>>, 0>>, Upto(Len(a)))
  IN NTrim(r[1])

RECURSIVE NPow(_, _)
NPow(a, k) == IF k = 0 THEN NOne ELSE LET h == NPow(a, k \div 2) q == NMul(h, h) IN IF k % 2 = 0 THEN q ELSE NMul(q, a)

(* ---- integers ---- *)
Whole(n) == [s |-> IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0, m |-> NInt(IF n < 0 THEN -n ELSE n)]
Mk(s, m) == [s |-> IF m = <<>> THEN 0 ELSE s, m |-> m]
Zero == Mk(0, NZero)
One == Mk(1, NOne)
Neg(a) == [a EXCEPT !.s = -a.s]
Abs(a) == Mk(1, a.m)
Add(a, b) ==
  IF a.s = 0 THEN b ELSE IF b.s = 0 THEN a
  ELSE IF a.s = b.s THEN Mk(a.s, NAdd(a.m, b.m))
  ELSE LET c == NCmp(a.m, b.m) IN IF c = 0 THEN Zero ELSE IF c > 0 THEN Mk(a.s, NSub(a.m, b.m)) ELSE Mk(b.s, NSub(b.m, a.m))
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == Mk(a.s * b.s, NMul(a.m, b.m))
(* towards 0; the remainder has the sign of a *)
Quot(a, b) == Mk(a.s * b.s, NDivMod(a.m, b.m)[1])
Rem(a, b) == Mk(a.s, NDivMod(a.m, b.m)[2])
Cmp(a, b) == IF a.s # b.s THEN (IF a.s < b.s THEN -1 ELSE 1) ELSE a.s * NCmp(a.m, b.m)
Le(a, b) == Cmp(a, b) <= 0
Lt(a, b) == Cmp(a, b) < 0
Pow(a, k) == Mk(IF k % 2 = 0 THEN a.s * a.s ELSE a.s, NPow(a.m, k))
=============================================================================
