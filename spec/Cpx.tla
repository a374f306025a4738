-------------------------------- MODULE Cpx --------------------------------
(* Complex numbers with rational parts: (re + im i) / d. x: every step up to here is exact for the
   floating type; m: a bound of everything met on the way, to which the rounding is relative. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
B == INSTANCE Big WITH Base <- 10000

Up(a, b) == IF B!Lt(a, b) THEN b ELSE a
Size(re, im, d) == B!Add(B!Mk(1, B!NDivMod(B!NAdd(re.m, im.m), d)[1]), B!One)
Small(re, im) == Len(re.m) <= 4 /\ Len(im.m) <= 4 /\ B!NCmp(B!NAdd(re.m, im.m), <<0, 0, 0, 1000>>) < 0     \* 10^15
Mk(re, im, d, x, m) == [re |-> re, im |-> im, d |-> d, x |-> x /\ Small(re, im), m |-> Up(m, Size(re, im, d))]
Ok(v) == IF Len(v.re.m) > 8 \/ Len(v.im.m) > 8 \/ Len(v.d) > 8 THEN [k |-> "free", v |-> v] ELSE [k |-> "ok", v |-> v]
None == [re |-> B!Zero, im |-> B!Zero, d |-> <<1>>, x |-> TRUE, m |-> B!One]
Fail == [k |-> "err", v |-> None]
Free == [k |-> "free", v |-> None]
Whole(a, b) == Mk(B!Whole(a), B!Whole(b), <<1>>, TRUE, B!One)
IsZero(v) == v.re.s = 0 /\ v.im.s = 0

Neg(v) == [v EXCEPT !.re = B!Neg(v.re), !.im = B!Neg(v.im)]
Scaled(v, n) == <<B!Mul(v.re, B!Mk(1, n)), B!Mul(v.im, B!Mk(1, n))>>
Add(v, w) == IF v.d = w.d THEN Mk(B!Add(v.re, w.re), B!Add(v.im, w.im), v.d, v.x /\ w.x, Up(v.m, w.m))
  ELSE LET a == Scaled(v, w.d) b == Scaled(w, v.d) IN Mk(B!Add(a[1], b[1]), B!Add(a[2], b[2]), B!NMul(v.d, w.d), v.x /\ w.x, Up(v.m, w.m))
Mul(v, w) == Mk(B!Sub(B!Mul(v.re, w.re), B!Mul(v.im, w.im)), B!Add(B!Mul(v.re, w.im), B!Mul(v.im, w.re)), B!NMul(v.d, w.d), v.x /\ w.x, B!Mul(v.m, w.m))
Norm(v) == B!NAdd(B!NMul(v.re.m, v.re.m), B!NMul(v.im.m, v.im.m))
(* v / w = v * conj(w) * (w.d / |w|^2) *)
Div(v, w) ==
  LET p == B!Add(B!Mul(v.re, w.re), B!Mul(v.im, w.im)) q == B!Sub(B!Mul(v.im, w.re), B!Mul(v.re, w.im)) IN
  Mk(B!Mul(p, B!Mk(1, w.d)), B!Mul(q, B!Mk(1, w.d)), B!NMul(v.d, Norm(w)), FALSE, Up(v.m, w.m))
(* a divisor that was rounded and is small decides nothing *)
Doubtful(w) == ~w.x /\ B!NCmp(B!NMul(Norm(w), B!NPow(<<10>>, 4)), B!NMul(B!NMul(w.d, w.d), B!NMul(w.m.m, w.m.m))) < 0
Wide(v) == Len(v.re.m) > 8 \/ Len(v.im.m) > 8 \/ Len(v.d) > 8
Bin(o, v, w) ==
  CASE o = "+" -> Ok(Add(v, w))
  [] o = "-" -> Ok(Add(v, Neg(w)))
  [] o = "*" -> Ok(Mul(v, w))
  [] o = "/" -> IF Doubtful(w) THEN Free ELSE IF IsZero(w) THEN Fail ELSE Ok(Div(v, w))
RECURSIVE PowN(_, _)
PowN(v, n) == IF n = 0 THEN Ok(Whole(1, 0)) ELSE LET h == PowN(v, n - 1) IN IF h.k # "ok" THEN h ELSE Ok(Mul(h.v, v))
Power(v, n) ==
  IF Doubtful(v) THEN Free
  ELSE IF IsZero(v) THEN (IF n < 0 THEN Fail ELSE IF n = 0 THEN Ok(Whole(1, 0)) ELSE Ok([v EXCEPT !.m = B!One]))
  ELSE LET r == PowN(v, IF n < 0 THEN -n ELSE n) IN
       IF r.k # "ok" THEN r ELSE IF n < 0 THEN Ok(Div(Whole(1, 0), r.v)) ELSE Ok([r.v EXCEPT !.x = n = 0])
Running(o, vs) == FoldLeft(LAMBDA r, v : IF r.k # "ok" THEN r ELSE Bin(o, r.v, v), Ok(vs[1]), Tail(vs))
Fun(f, vs) == CASE f = "sum" -> Running("+", vs) [] f = "product" -> Running("*", vs)
              [] f = "avg" -> LET r == Running("+", vs) IN IF r.k # "ok" THEN r ELSE Bin("/", r.v, Whole(Len(vs), 0))

(* ---- literals: digits with or without a fraction, then perhaps an i; or i ---- *)
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitOf(c) == (CHOOSE k \in 1..10 : Digits[k] = c) - 1
Real(cs) ==
  LET dot == {j \in DOMAIN cs : cs[j] = "."}
      frac == IF dot = {} THEN 0 ELSE Len(cs) - (CHOOSE j \in dot : TRUE)
      n == FoldLeft(LAMBDA t, c : IF c = "." THEN t ELSE B!Add(B!Mul(t, B!Whole(10)), B!Whole(DigitOf(c))), B!Zero, cs)
      ten == B!NPow(<<10>>, frac)
      four == B!NDivMod(B!NMulInt(n.m, 4), ten)
  IN IF frac = 0 THEN <<n, <<1>>, TRUE>> ELSE IF four[2] = <<>> THEN <<B!Mk(1, four[1]), <<4>>, TRUE>> ELSE <<n, ten, FALSE>>
Literal(cs) ==
  IF cs = <<"i">> THEN Whole(0, 1)
  ELSE IF cs[Len(cs)] = "i" THEN LET r == Real(SubSeq(cs, 1, Len(cs) - 1)) IN Mk(B!Zero, r[1], r[2], r[3], B!One)
  ELSE LET r == Real(cs) IN Mk(r[1], B!Zero, r[2], r[3], B!One)

(* a postfix program: [t |-> "lit", s], [t |-> "bin", o], [t |-> "neg"], [t |-> "pow", n], [t |-> "fn", o, n] *)
Step(st, i) ==
  IF st.k # "ok" THEN st ELSE
  LET n == Len(st.s)
      take == CASE i.t = "lit" -> 0 [] i.t = "bin" -> 2 [] i.t \in {"neg", "pow"} -> 1 [] i.t = "fn" -> i.n
      r == CASE i.t = "lit" -> Ok(Literal(i.s))
           [] i.t = "bin" -> Bin(i.o, st.s[n - 1], st.s[n])
           [] i.t = "neg" -> Ok(Neg(st.s[n]))
           [] i.t = "pow" -> Power(st.s[n], i.n)
           [] i.t = "fn" -> Fun(i.o, SubSeq(st.s, n - i.n + 1, n))
  IN IF r.k = "ok" THEN [k |-> "ok", s |-> Append(SubSeq(st.s, 1, n - take), r.v)] ELSE [k |-> r.k, s |-> <<>>]
Run(prog) == LET st == FoldLeft(Step, [k |-> "ok", s |-> <<>>], prog) IN IF st.k = "ok" THEN [k |-> "ok", v |-> st.s[1]] ELSE IF st.k = "err" THEN Fail ELSE Free

(* ---- a recorded part [n, d] (the float as a fraction) against a part r / d ---- *)
SamePart(g, r, d) == B!Mul(g.n, B!Mk(1, d)) = B!Mul(r, B!Mk(1, g.d))
ClosePart(g, r, d, m) ==
  LET e == B!Abs(B!Sub(B!Mul(g.n, B!Mk(1, d)), B!Mul(r, B!Mk(1, g.d)))) IN
  B!Le(B!Mul(e, B!Mk(1, <<0, 0, 10>>)), B!Mul(m, B!Mk(1, B!NMul(d, g.d))))      \* within m * 10^-9
Allowed(want, got) ==
  CASE want.k = "err" -> got.k = "err"
  [] want.k = "free" -> got.k \in {"ok", "err", "inf"}
  [] want.k = "ok" -> /\ got.k = "ok"
                      /\ IF want.v.x THEN SamePart(got.re, want.v.re, want.v.d) /\ SamePart(got.im, want.v.im, want.v.d)
                         ELSE ClosePart(got.re, want.v.re, want.v.d, want.v.m) /\ ClosePart(got.im, want.v.im, want.v.d, want.v.m)
=============================================================================
