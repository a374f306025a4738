-------------------------------- MODULE Dec --------------------------------
(* Decimals: [s, m, e] is s * m * 10^-e. Those the type holds have m <= MaxM and 0 <= e <= MaxE. What
   the operations give: the exact result when the type holds it, an error when it is beyond the largest
   decimal or not defined, and otherwise a neighbour of the exact result. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
CONSTANTS MaxM, MaxE        \* MaxM is a natural of Big
B == INSTANCE Big WITH Base <- 10000

Num(x) == [s |-> x.s, m |-> x.m]
(* m * 10^k *)
Ten(m, k) == IF m = <<>> THEN <<>> ELSE [i \in 1..(k \div 4) |-> 0] \o B!NMulInt(m, 10 ^ (k % 4))
Mk(s, m, e) == [s |-> IF m = <<>> THEN 0 ELSE s, m |-> m, e |-> IF m = <<>> THEN 0 ELSE e]
RECURSIVE Strip(_)
(* without the zeros at the end of m; e may become negative *)
Strip(x) ==
  IF x.m = <<>> THEN Mk(0, <<>>, 0)
  ELSE IF x.m[1] = 0 THEN Strip([x EXCEPT !.m = Tail(x.m), !.e = x.e - 4])
  ELSE IF x.m[1] % 10 = 0 THEN Strip([x EXCEPT !.m = B!NDivInt(x.m, 10), !.e = x.e - 1])
  ELSE x
(* with a scale of 0 or more *)
Norm(x) == LET y == Strip(x) IN IF y.e < 0 THEN Mk(y.s, Ten(y.m, -y.e), 0) ELSE y
Same(x, y) == Strip(x) = Strip(y)
(* Whether the type holds the value *)
Holds(x) == LET y == Strip(x) IN y.e <= MaxE /\ y.e > -60 /\ B!NCmp(IF y.e < 0 THEN Ten(y.m, -y.e) ELSE y.m, MaxM) <= 0
Zero == Mk(0, <<>>, 0)
One == Mk(1, <<1>>, 0)
Whole(n) == LET b == B!Whole(n) IN Mk(b.s, b.m, 0)
Align(x, e) == [s |-> x.s, m |-> Ten(x.m, e - x.e)]
Top(x, y) == IF x.e >= y.e THEN x.e ELSE y.e
Of(b, e) == Mk(b.s, b.m, e)
Neg(x) == [x EXCEPT !.s = -x.s]
Abs(x) == Mk(1, x.m, x.e)
Add(x, y) == Of(B!Add(Align(x, Top(x, y)), Align(y, Top(x, y))), Top(x, y))
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == Mk(x.s * y.s, B!NMul(x.m, y.m), x.e + y.e)
Cmp(x, y) == B!Cmp(Align(x, Top(x, y)), Align(y, Top(x, y)))
Lt(x, y) == Cmp(x, y) < 0
Le(x, y) == Cmp(x, y) <= 0
Rem(x, y) == Of(B!Rem(Align(x, Top(x, y)), Align(y, Top(x, y))), Top(x, y))
(* the quotient to 60 places, and whether that is all of it *)
Places == 60
Div(x0, y0) == LET x == Norm(x0) y == Norm(y0) qr == B!NDivMod(Ten(x.m, Places + y.e), Ten(y.m, x.e)) IN [v |-> Mk(x.s * y.s, qr[1], Places), exact |-> qr[2] = <<>>]
RECURSIVE PowN(_, _)
PowN(x, n) == IF n = 0 THEN One ELSE LET h == PowN(x, n \div 2) q == Mul(h, h) IN Strip(IF n % 2 = 0 THEN q ELSE Mul(q, x))
(* the whole part *)
Trunc(x) == IF x.e <= 0 THEN x ELSE Mk(x.s, IF x.e % 4 = 0 THEN (IF x.e \div 4 >= Len(x.m) THEN <<>> ELSE SubSeq(x.m, x.e \div 4 + 1, Len(x.m)))
                                             ELSE B!NDivMod(x.m, Ten(<<1>>, x.e))[1], 0)
Floor(x) == LET t == Trunc(x) IN IF x.s >= 0 \/ Same(t, x) THEN t ELSE Sub(t, One)
Ceil(x) == Neg(Floor(Neg(x)))
Largest == Mk(1, MaxM, 0)
Unit == Mk(1, <<1>>, MaxE)      \* the smallest decimal

(* ---- outcomes: what a result may be ---- *)
Exact(x) == [k |-> "ok", v |-> x]
Near(x) == [k |-> "near", v |-> x]      \* rounded: x itself is not held
Fail == [k |-> "err", v |-> Zero]
Free == [k |-> "free", v |-> Zero]      \* derived from a rounded value: not decided here
Beyond(x) == Le(Add(Largest, One), Abs(x))
Out(x) == IF Holds(x) THEN Exact(Norm(x)) ELSE IF Beyond(x) THEN Fail ELSE Near(x)

Bin(o, x, y) ==
  CASE o = "+" -> Out(Add(x, y))
  [] o = "-" -> Out(Sub(x, y))
  [] o = "*" -> Out(Mul(x, y))
  [] o = "/" -> IF y.m = <<>> THEN Fail ELSE LET q == Div(x, y) IN IF q.exact THEN Out(q.v) ELSE IF Beyond(q.v) THEN Fail ELSE Near(q.v)
  [] o = "mod" -> IF y.m = <<>> THEN Fail ELSE Out(Rem(x, y))
(* a whole power; n is TLC's integer, |n| small *)
Power(x, n) ==
  IF x.m = <<>> THEN (IF n < 0 THEN Fail ELSE IF n = 0 THEN Exact(One) ELSE Exact(Zero))
  ELSE IF n >= 0 THEN Out(PowN(x, n)) ELSE Bin("/", One, PowN(x, -n))
RECURSIVE Fact(_, _)
Fact(t, n) == IF n <= 1 THEN t ELSE Fact(B!NMulInt(t, n), n - 1)
Factorial(x) ==      \* of a whole number
  IF x.s < 0 THEN Fail ELSE IF Lt(Whole(40), x) THEN Fail ELSE LET y == Trunc(x) IN Out(Mk(1, Fact(<<1>>, IF y.m = <<>> THEN 0 ELSE y.m[1]), 0))
Una(o, x) == CASE o = "-" -> Exact(Neg(x)) [] o = "+" -> Exact(x) [] o = "!" -> IF Same(Trunc(x), x) THEN Factorial(Norm(x)) ELSE IF x.s < 0 THEN Fail ELSE Free

(* functions of a list: the running results have to be held too *)
Running(o, xs) == FoldLeft(LAMBDA r, x : IF r.k # "ok" THEN (IF r.k = "near" THEN Free ELSE r) ELSE Bin(o, r.v, x), Exact(xs[1]), Tail(xs))
Best(xs, up) == FoldLeft(LAMBDA m, x : IF (up /\ Lt(m, x)) \/ (~up /\ Lt(x, m)) THEN x ELSE m, xs[1], Tail(xs))
Round(x, got) ==     \* either way from the middle
  LET d == Abs(Sub(x, got)) IN Same(Trunc(got), got) /\ Le(Add(d, d), One)
Fun(f, xs) ==
  CASE f = "sum" -> Running("+", xs)
  [] f = "product" -> Running("*", xs)
  [] f = "avg" -> LET r == Running("+", xs) IN IF r.k = "ok" THEN Bin("/", r.v, Whole(Len(xs))) ELSE IF r.k = "near" THEN Free ELSE r
  [] f = "max" -> Exact(Best(xs, TRUE))
  [] f = "min" -> Exact(Best(xs, FALSE))
  [] f = "floor" -> Out(Floor(xs[1]))
  [] f = "ceil" -> Out(Ceil(xs[1]))
  [] f = "truncate" -> Out(Trunc(xs[1]))
  [] f = "round" -> [k |-> "round", v |-> xs[1]]

(* within a unit of the last place, and a few for a power: slack is a natural *)
Close(x, y, slack) ==
  LET d == Abs(Sub(x, y)) IN
  Le(d, Mul(Whole(slack), Unit)) \/ Le(Mul(d, Mk(1, <<1>>, -27)), Mul(Whole(slack), Abs(x)))
(* got is [k, v] as it was recorded *)
Allowed(want, got, slack) ==
  CASE want.k = "ok" -> got.k = "ok" /\ Same(got.v, want.v)
  [] want.k = "err" -> got.k = "err"
  [] want.k = "near" -> \/ got.k = "ok" /\ Close(want.v, got.v, slack)
                        \/ got.k = "err" /\ Lt(Largest, Abs(want.v))
  [] want.k = "round" -> got.k = "ok" /\ Round(want.v, got.v)
  [] want.k = "free" -> got.k \in {"ok", "err"}

(* a postfix program: [t, v, o, n] as for integers *)
Step(st, i) ==
  IF st.k # "ok" THEN st ELSE
  LET n == Len(st.s)
      take == CASE i.t = "n" -> 0 [] i.t = "bin" -> 2 [] i.t = "una" -> 1 [] i.t = "fn" -> i.n [] i.t = "pow" -> 1
      r == CASE i.t = "n" -> Exact(i.v)
           [] i.t = "bin" -> Bin(i.o, st.s[n - 1], st.s[n])
           [] i.t = "una" -> Una(i.o, st.s[n])
           [] i.t = "pow" -> Power(st.s[n], i.n)
           [] i.t = "fn" -> Fun(i.o, SubSeq(st.s, n - i.n + 1, n))
  IN IF r.k = "ok" THEN [k |-> "ok", s |-> Append(SubSeq(st.s, 1, n - take), r.v)] ELSE [k |-> IF r.k = "err" THEN "err" ELSE "free", s |-> <<>>]
Run(prog) == LET st == FoldLeft(Step, [k |-> "ok", s |-> <<>>], prog) IN IF st.k = "ok" THEN Exact(st.s[1]) ELSE IF st.k = "err" THEN Fail ELSE Free
=============================================================================
