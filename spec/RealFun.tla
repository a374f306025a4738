------------------------------ MODULE RealFun ------------------------------
(* What the named functions and the operators of the floating contexts mean. A record r holds the
   context's family r.f ("f" f64, "s" f32, "d" decimal, "i" integer, "c" complex), the name r.fn, the
   arguments r.x, how the evaluation ended r.k ("ok", "err", "inf": not finite) and its value r.y;
   all numbers are those of Fixed. Forward functions are compared with their series; an inverse is
   undone by its function and must lie on the principal branch. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
F == INSTANCE Fixed

Tol(f) == CASE f = "f" -> F!Small(9) [] f = "s" -> F!Small(4) [] f = "d" -> F!Small(12) [] f = "c" -> F!Small(9) [] f = "i" -> F!Small(9)
Near(f, a, b, size) == F!Le(F!Abs(F!Sub(a, b)), F!Mul(Tol(f), F!Larger(F!One, F!Abs(size))))
Rough == F!Small(9)                          \* the decimal factorial between the whole numbers
Between(a, lo, hi, f) == F!Le(F!Sub(lo, F!Mul(F!Int_(100), Tol(f))), a) /\ F!Le(a, F!Add(hi, F!Mul(F!Int_(100), Tol(f))))
D(n) == F!Int_(n)
One == F!One
Tiny(a) == F!Lt(F!Abs(a), F!Small(6))
Pole(x, at) == F!Mod(x, D(180)) = D(at)
Positive(a) == a.s > 0

(* the floating contexts give the inverse hyperbolics in degrees too *)
Turn(f, y) == IF f \in {"f", "s"} THEN F!Rad(y) ELSE y
Sqrt(x) == IF x.s = 0 THEN F!Zero ELSE F!Exp(F!DivInt(F!Ln(x), 2))
Trunc(x) == IF x.s >= 0 THEN F!Floor(x) ELSE F!Neg(F!Floor(F!Neg(x)))
(* b^q *)
PowDom(b, q) ==
  CASE b.s > 0 -> "in"
  [] b.s = 0 -> IF q.s < 0 THEN "out" ELSE "in"
  [] b.s < 0 -> IF F!Whole(q) THEN "in" ELSE "out"
Even(q) == F!Whole(F!DivInt(q, 2))
PowVal(b, q) ==
  IF q.s = 0 THEN One ELSE IF b.s = 0 THEN F!Zero
  ELSE LET e == F!Exp(F!Mul(q, F!Ln(F!Abs(b)))) IN IF b.s > 0 \/ Even(q) THEN e ELSE F!Neg(e)

(* ---- where a function has a value: "in", "out" (an error, or not finite) or "edge" (either) ---- *)
Dom(fn, x) ==
  CASE fn \in {"tan", "sec"} -> IF Pole(x[1], 90) THEN "out" ELSE IF Tiny(F!CosDeg(x[1])) THEN "edge" ELSE "in"
  [] fn \in {"csc", "cot"} -> IF Pole(x[1], 0) THEN "out" ELSE IF Tiny(F!SinDeg(x[1])) THEN "edge" ELSE "in"
  [] fn \in {"asin", "acos"} -> IF F!Le(F!Abs(x[1]), One) THEN "in" ELSE "out"
  [] fn \in {"acsc", "asec"} -> IF F!Le(One, F!Abs(x[1])) THEN "in" ELSE "out"
  [] fn = "acot" -> IF x[1].s = 0 THEN "edge" ELSE "in"
  [] fn = "atan" -> IF Len(x) = 2 /\ x[1].s = 0 /\ x[2].s = 0 THEN "out" ELSE "in"
  [] fn \in {"csch", "coth", "acsch"} -> IF x[1].s = 0 THEN "out" ELSE "in"
  [] fn = "acosh" -> IF F!Le(One, x[1]) THEN "in" ELSE "out"
  [] fn = "atanh" -> IF F!Lt(F!Abs(x[1]), One) THEN "in" ELSE "out"
  [] fn = "asech" -> IF Positive(x[1]) /\ F!Le(x[1], One) THEN "in" ELSE "out"
  [] fn = "acoth" -> IF F!Lt(One, F!Abs(x[1])) THEN "in" ELSE "out"
  [] fn = "ln" -> IF Positive(x[1]) THEN "in" ELSE "out"
  [] fn = "log" -> IF ~Positive(x[1]) \/ (Len(x) = 2 /\ (~Positive(x[2]) \/ x[2] = One)) THEN "out" ELSE "in"
  [] fn = "sqrt" -> IF x[1].s < 0 THEN "out" ELSE "in"
  [] fn = "!" -> IF x[1].s < 0 \/ F!Lt(D(170), x[1]) THEN "out" ELSE "in"
  [] fn \in {"/", "mod"} -> IF x[2].s = 0 THEN "out" ELSE "in"
  [] fn = "^" -> PowDom(x[1], x[2])
  (* called as they are, with angles in radians *)
  [] fn = "rtan" -> IF Tiny(F!Cos(x[1])) THEN "edge" ELSE "in"
  [] fn = "rcot" -> IF x[1].s = 0 THEN "out" ELSE IF Tiny(F!Sin(x[1])) THEN "edge" ELSE "in"
  [] fn \in {"rasin", "racos"} -> IF F!Le(F!Abs(x[1]), One) THEN "in" ELSE "out"
  [] fn = "inv" -> IF x[1].s = 0 THEN "out" ELSE "in"
  [] OTHER -> "in"

(* ---- what the value must satisfy ---- *)
Sum(xs) == FoldLeft(LAMBDA t, v : F!Add(t, v), F!Zero, xs)
Prod(xs) == FoldLeft(LAMBDA t, v : F!Mul(t, v), One, xs)
Mag(xs) == FoldLeft(LAMBDA t, v : F!Add(t, F!Abs(v)), F!Zero, xs)
Wholes == {"floor", "ceil", "truncate", "round"}
(* gamma is the factorial of the number before; below 0 by its recurrence *)
RECURSIVE Gamma(_)
Gamma(x) == IF Positive(x) THEN F!Fact(F!Sub(x, One)) ELSE F!Div(Gamma(F!Add(x, One)), x)
InRad(f, fn, xs, y) ==
  LET x == xs[1] s == F!Sin(y) c == F!Cos(y) half == F!PiHalf N(a, b, z) == Near(f, a, b, z) IN
  CASE fn = "rsin" -> N(y, F!Sin(x), One)
  [] fn = "rcos" -> N(y, F!Cos(x), One)
  [] fn = "rtan" -> N(F!Mul(y, F!Cos(x)), F!Sin(x), y)
  [] fn = "rcot" -> N(F!Mul(y, F!Sin(x)), F!Cos(x), y)
  [] fn = "rasin" -> N(s, x, One) /\ Between(y, F!Neg(half), half, f)
  [] fn = "racos" -> N(c, x, One) /\ Between(y, F!Zero, F!Pi, f)
  [] fn = "ratan" /\ Len(xs) = 1 -> N(s, F!Mul(x, c), x) /\ Between(y, F!Neg(half), half, f)
  [] fn = "ratan" /\ Len(xs) = 2 -> LET m == F!Larger(F!Abs(x), F!Abs(xs[2])) IN
       IF m.s = 0 THEN y.s = 0
       ELSE /\ N(F!Mul(s, F!Div(xs[2], m)), F!Mul(c, F!Div(x, m)), One) /\ Positive(F!Add(F!Mul(s, F!Div(x, m)), F!Mul(c, F!Div(xs[2], m))))
            /\ Between(y, F!Neg(F!Pi), F!Pi, f) /\ (x.s = 0 => y.s >= 0)
  [] fn = "inv" -> N(F!Mul(y, x), One, F!Larger(x, One))
  [] fn = "whole" -> y = IF F!Whole(x) THEN One ELSE F!Zero
  [] fn = "gamma" -> LET v == Gamma(x) IN N(y, v, v)
Radians == {"rsin", "rcos", "rtan", "rcot", "rasin", "racos", "ratan", "inv", "whole", "gamma"}
Rel(f, fn, xs, y, prev) ==
  LET x == xs[1]
      S == F!SinDeg(x) C == F!CosDeg(x)
      s == F!SinDeg(y) c == F!CosDeg(y)
      t == Turn(f, y)
      N(a, b, z) == Near(f, a, b, z)
  IN
  CASE fn \in Radians -> InRad(f, fn, xs, y)
  [] fn = "sin" -> N(y, S, One)
  [] fn = "cos" -> N(y, C, One)
  [] fn = "tan" -> N(F!Mul(y, C), S, y)
  [] fn = "csc" -> N(F!Mul(y, S), One, y)
  [] fn = "sec" -> N(F!Mul(y, C), One, y)
  [] fn = "cot" -> N(F!Mul(y, S), C, y)
  [] fn = "asin" -> N(s, x, One) /\ Between(y, D(-90), D(90), f)
  [] fn = "acos" -> N(c, x, One) /\ Between(y, D(0), D(180), f)
  [] fn = "atan" /\ Len(xs) = 1 -> N(s, F!Mul(x, c), x) /\ Between(y, D(-90), D(90), f)
  [] fn = "atan" /\ Len(xs) = 2 -> LET m == F!Larger(F!Abs(x), F!Abs(xs[2])) IN
       /\ N(F!Mul(s, F!Div(xs[2], m)), F!Mul(c, F!Div(x, m)), One) /\ Positive(F!Add(F!Mul(s, F!Div(x, m)), F!Mul(c, F!Div(xs[2], m))))
       /\ Between(y, D(-180), D(180), f) /\ (x.s = 0 => y.s >= 0)
  [] fn = "acsc" -> N(F!Mul(s, x), One, x) /\ Between(y, D(-90), D(90), f)
  [] fn = "asec" -> N(F!Mul(c, x), One, x) /\ Between(y, D(0), D(180), f)
  [] fn = "acot" -> N(F!Mul(s, x), c, x) /\ Between(y, D(-90), D(90), f)
  [] fn = "sinh" -> LET v == F!Sinh(x) IN N(y, v, v)
  [] fn = "cosh" -> LET v == F!Cosh(x) IN N(y, v, v)
  [] fn = "tanh" -> N(y, F!Div(F!Sinh(x), F!Cosh(x)), One)
  [] fn = "csch" -> LET v == F!Div(One, F!Sinh(x)) IN N(y, v, v)
  [] fn = "sech" -> LET v == F!Div(One, F!Cosh(x)) IN N(y, v, v)
  [] fn = "coth" -> LET v == F!Div(F!Cosh(x), F!Sinh(x)) IN N(y, v, v)
  [] fn = "asinh" -> N(F!Sinh(t), x, x)
  [] fn = "acosh" -> N(F!Cosh(t), x, x) /\ y.s >= 0
  [] fn = "atanh" -> LET k == F!Cosh(t) IN N(F!Sinh(t), F!Mul(x, k), k)
  [] fn = "acsch" -> N(F!Mul(F!Sinh(t), x), One, x)
  [] fn = "asech" -> N(F!Mul(F!Cosh(t), x), One, x) /\ y.s >= 0
  [] fn = "acoth" -> LET k == F!Cosh(t) IN N(F!Mul(F!Sinh(t), x), k, F!Mul(k, x))
  [] fn = "exp" -> LET v == F!Exp(x) IN N(y, v, v)
  [] fn = "ln" -> N(F!Exp(y), x, x) /\ N(y, F!Ln(x), y)
  [] fn = "log" /\ Len(xs) = 1 -> N(F!Mul(y, F!Ln(F!Ten)), F!Ln(x), F!Ln(x))
  [] fn = "log" /\ Len(xs) = 2 -> N(F!Mul(y, F!Ln(xs[2])), F!Ln(x), F!Ln(x))
  [] fn = "sqrt" -> N(F!Sq(y), x, x) /\ N(y, Sqrt(x), y) /\ y.s >= 0
  [] fn = "cbrt" -> N(F!Mul(F!Sq(y), y), x, x)
  [] fn = "floor" -> y = F!Floor(x)
  [] fn = "ceil" -> y = F!Neg(F!Floor(F!Neg(x)))
  [] fn = "truncate" -> y = Trunc(x)
  [] fn = "round" -> F!Whole(y) /\ F!Le(F!MulInt(F!Abs(F!Sub(x, y)), 2), One)
  [] fn = "sign" -> IF x.s = 0 THEN y.s = 0 \/ y = One ELSE y = D(x.s)
  [] fn = "abs" -> y = F!Abs(x)
  [] fn = "max" -> (\E i \in DOMAIN xs : xs[i] = y) /\ \A i \in DOMAIN xs : F!Le(xs[i], y)
  [] fn = "min" -> (\E i \in DOMAIN xs : xs[i] = y) /\ \A i \in DOMAIN xs : F!Le(y, xs[i])
  [] fn = "to_radians" -> LET v == F!Rad(x) IN N(y, v, v)
  [] fn = "to_degrees" -> LET v == F!Deg(x) IN N(y, v, v)
  [] fn = "!" -> IF prev # <<>> THEN N(y, F!Mul(x, prev[1]), y)
                 ELSE LET v == F!Fact(x) IN F!Le(F!Abs(F!Sub(y, v)), F!Mul(IF f = "d" /\ ~F!Whole(x) THEN Rough ELSE Tol(f), F!Larger(One, v)))
  [] fn = "+" -> N(y, F!Add(x, xs[2]), Mag(xs))
  [] fn = "-" /\ Len(xs) = 2 -> N(y, F!Sub(x, xs[2]), Mag(xs))
  [] fn = "-" /\ Len(xs) = 1 -> y = F!Neg(x)
  [] fn = "*" -> LET v == F!Mul(x, xs[2]) IN N(y, v, v)
  [] fn = "/" -> N(F!Mul(y, xs[2]), x, x)
  [] fn = "mod" -> N(y, F!Rem(x, xs[2]), One)
  [] fn = "^" -> LET v == PowVal(x, xs[2]) IN N(y, v, v)
  [] fn = "sum" -> N(y, Sum(xs), Mag(xs))
  [] fn = "product" -> LET v == Prod(xs) IN N(y, v, v)
  [] fn = "avg" -> N(F!Mul(y, D(Len(xs))), Sum(xs), Mag(xs))
  [] fn = "PI" -> N(y, F!Pi, One)
  [] fn = "E" -> N(y, F!Exp(One), One)

(* ---- integer contexts: the real value with its fraction cut off ---- *)
IntVal(fn, xs) ==
  LET x == xs[1] IN
  CASE fn = "sin" -> F!SinDeg(x) [] fn = "cos" -> F!CosDeg(x) [] fn = "tan" -> F!Div(F!SinDeg(x), F!CosDeg(x))
  [] fn = "csc" -> F!Div(One, F!SinDeg(x)) [] fn = "sec" -> F!Div(One, F!CosDeg(x)) [] fn = "cot" -> F!Div(F!CosDeg(x), F!SinDeg(x))
  [] fn = "sinh" -> F!Sinh(x) [] fn = "cosh" -> F!Cosh(x) [] fn = "tanh" -> F!Div(F!Sinh(x), F!Cosh(x))
  [] fn = "exp" -> F!Exp(x) [] fn = "ln" -> F!Ln(x)
  [] fn = "log" -> F!Div(F!Ln(x), IF Len(xs) = 2 THEN F!Ln(xs[2]) ELSE F!Ln(F!Ten))
  [] fn = "sqrt" -> Sqrt(x) [] fn = "^" -> PowVal(x, xs[2])
  [] fn = "to_radians" -> F!Rad(x) [] fn = "to_degrees" -> F!Deg(x)
Cut(v, y) == LET d == F!Mul(F!Small(10), F!Larger(One, F!Abs(v))) IN F!Le(Trunc(F!Sub(v, d)), y) /\ F!Le(y, Trunc(F!Add(v, d)))
Integral == {"floor", "ceil", "truncate", "round", "sign", "abs", "max", "min"}

(* ---- complex: a number is <<re, im>>, angles in radians ---- *)
CAdd(z, w) == <<F!Add(z[1], w[1]), F!Add(z[2], w[2])>>
CNeg(z) == <<F!Neg(z[1]), F!Neg(z[2])>>
CMul(z, w) == <<F!Sub(F!Mul(z[1], w[1]), F!Mul(z[2], w[2])), F!Add(F!Mul(z[1], w[2]), F!Mul(z[2], w[1]))>>
CScale(z, a) == <<F!Mul(z[1], a), F!Mul(z[2], a)>>
CExp(z) == LET e == F!Exp(z[1]) IN <<F!Mul(e, F!Cos(z[2])), F!Mul(e, F!Sin(z[2]))>>
CSinh(z) == <<F!Mul(F!Sinh(z[1]), F!Cos(z[2])), F!Mul(F!Cosh(z[1]), F!Sin(z[2]))>>
CCosh(z) == <<F!Mul(F!Cosh(z[1]), F!Cos(z[2])), F!Mul(F!Sinh(z[1]), F!Sin(z[2]))>>
CSin(z) == <<F!Mul(F!Sin(z[1]), F!Cosh(z[2])), F!Mul(F!Cos(z[1]), F!Sinh(z[2]))>>
CCos(z) == <<F!Mul(F!Cos(z[1]), F!Cosh(z[2])), F!Neg(F!Mul(F!Sin(z[1]), F!Sinh(z[2])))>>
C1 == <<One, F!Zero>>
CZero(z) == z[1].s = 0 /\ z[2].s = 0
CSize(z) == F!Add(F!Abs(z[1]), F!Abs(z[2]))
CNear(a, b, size) == Near("c", a[1], b[1], size) /\ Near("c", a[2], b[2], size)
CDom(fn, z) ==
  CASE fn \in {"csc", "cot", "csch", "coth", "acsc", "asec", "acsch", "asech", "ln"} -> IF CZero(z[1]) THEN "out" ELSE "in"
  [] fn = "log" -> IF (Len(z) = 2 /\ (z[2][2].s # 0 \/ ~Positive(z[2][1]) \/ z[2][1] = One)) \/ CZero(z[1]) THEN "out" ELSE "in"
  [] fn \in {"acot", "acoth"} /\ CZero(z[1]) -> "edge"
  [] fn \in {"atan", "acot"} -> IF z[1][1].s = 0 /\ F!Abs(z[1][2]) = One THEN "out" ELSE "in"
  [] fn \in {"atanh", "acoth"} -> IF z[1][2].s = 0 /\ F!Abs(z[1][1]) = One THEN "out" ELSE "in"
  [] OTHER -> "in"
Re(w, lo, hi) == Between(w[1], lo, hi, "c")
Im(w, lo, hi) == Between(w[2], lo, hi, "c")
Half == F!PiHalf
CRel(fn, zs, w, aux) ==
  LET z == zs[1] N(a, b, s) == CNear(a, b, s) big(a, b) == F!Add(CSize(a), CSize(b)) IN
  CASE fn = "sin" -> LET v == CSin(z) IN N(w, v, CSize(v))
  [] fn = "cos" -> LET v == CCos(z) IN N(w, v, CSize(v))
  [] fn = "tan" -> LET a == CSin(z) b == CCos(z) IN N(CMul(w, b), a, big(a, b))
  [] fn = "csc" -> LET a == CSin(z) IN N(CMul(w, a), C1, big(w, a))
  [] fn = "sec" -> LET a == CCos(z) IN N(CMul(w, a), C1, big(w, a))
  [] fn = "cot" -> LET a == CSin(z) b == CCos(z) IN N(CMul(w, a), b, F!Add(CSize(w), big(a, b)))
  [] fn = "sinh" -> LET v == CSinh(z) IN N(w, v, CSize(v))
  [] fn = "cosh" -> LET v == CCosh(z) IN N(w, v, CSize(v))
  [] fn = "tanh" -> LET a == CSinh(z) b == CCosh(z) IN N(CMul(w, b), a, big(a, b))
  [] fn = "csch" -> LET a == CSinh(z) IN N(CMul(w, a), C1, big(w, a))
  [] fn = "sech" -> LET a == CCosh(z) IN N(CMul(w, a), C1, big(w, a))
  [] fn = "coth" -> LET a == CSinh(z) b == CCosh(z) IN N(CMul(w, a), b, F!Add(CSize(w), big(a, b)))
  [] fn = "asin" -> N(CSin(w), z, CSize(z)) /\ Re(w, F!Neg(Half), Half)
  [] fn = "acos" -> N(CCos(w), z, CSize(z)) /\ Re(w, F!Zero, F!Pi)
  [] fn = "atan" -> LET a == CSin(w) b == CCos(w) IN N(CMul(z, b), a, F!Add(CSize(z), big(a, b))) /\ Re(w, F!Neg(Half), Half)
  [] fn = "acsc" -> N(CMul(CSin(w), z), C1, CSize(z)) /\ Re(w, F!Neg(Half), Half)
  [] fn = "asec" -> N(CMul(CCos(w), z), C1, CSize(z)) /\ Re(w, F!Zero, F!Pi)
  [] fn = "acot" -> LET a == CSin(w) b == CCos(w) IN N(CMul(z, a), b, F!Add(CSize(z), big(a, b))) /\ Re(w, F!Neg(Half), Half)
  [] fn = "asinh" -> N(CSinh(w), z, CSize(z)) /\ Im(w, F!Neg(Half), Half)
  [] fn = "acosh" -> N(CCosh(w), z, CSize(z)) /\ Im(w, F!Neg(F!Pi), F!Pi) /\ ~F!Lt(w[1], F!Neg(F!Small(7)))
  [] fn = "atanh" -> LET a == CSinh(w) b == CCosh(w) IN N(CMul(z, b), a, F!Add(CSize(z), big(a, b))) /\ Im(w, F!Neg(Half), Half)
  [] fn = "acsch" -> N(CMul(CSinh(w), z), C1, CSize(z)) /\ Im(w, F!Neg(Half), Half)
  [] fn = "asech" -> N(CMul(CCosh(w), z), C1, CSize(z)) /\ Im(w, F!Neg(F!Pi), F!Pi) /\ ~F!Lt(w[1], F!Neg(F!Small(7)))
  [] fn = "acoth" -> LET a == CSinh(w) b == CCosh(w) IN N(CMul(z, a), b, F!Add(CSize(z), big(a, b))) /\ Im(w, F!Neg(Half), Half)
  [] fn = "exp" -> LET v == CExp(z) IN N(w, v, CSize(v))
  [] fn = "ln" -> N(CExp(w), z, CSize(z)) /\ Im(w, F!Neg(F!Pi), F!Pi)
  [] fn = "log" -> N(CExp(CScale(w, F!Ln(IF Len(zs) = 2 THEN zs[2][1] ELSE F!Ten))), z, CSize(z))
  [] fn = "sqrt" -> N(CMul(w, w), z, CSize(z)) /\ ~F!Lt(w[1], F!Neg(F!Small(7)))
  (* aux: the recorded ln of the base, judged by its own record *)
  [] fn = "^" -> LET v == CExp(CMul(zs[2], aux)) IN N(CExp(aux), z, CSize(z)) /\ N(w, v, CSize(v))
  [] fn = "PI" -> N(w, <<F!Pi, F!Zero>>, One)
  [] fn = "E" -> N(w, <<F!Exp(One), F!Zero>>, One)
  [] fn = "i" -> w = <<F!Zero, One>>

(* outside the domain: an error; some floating functions answer what is not a number or not finite *)
Refused(r) == r.k = "err" \/ (r.k = "inf" /\ (r.f = "c" \/ r.fn \in {"ln", "sqrt", "csch", "coth", "^"}))

Allowed(r) ==
  IF r.f = "c" THEN
    LET d == CDom(r.fn, r.x) IN
    IF r.k = "ok" THEN d # "out" /\ CRel(r.fn, r.x, r.y, r.aux) ELSE d # "in" /\ Refused(r)
  ELSE
    LET d == Dom(r.fn, r.x) IN
    IF r.f = "i" /\ r.fn \notin Integral THEN
      IF d # "in" THEN r.k = "err"
      ELSE LET v == IntVal(r.fn, r.x) IN IF r.k = "ok" THEN Cut(v, r.y) ELSE r.k = "err" /\ F!Le(r.aux, F!Abs(v))
    ELSE IF r.k = "ok" THEN d # "out" /\ Rel(r.f, r.fn, r.x, r.y, r.aux) ELSE d # "in" /\ Refused(r)
=============================================================================
