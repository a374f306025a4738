-------------------------------- MODULE Bits --------------------------------
(* The binary context: values are W bits in two's complement, the lowest first. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC
LOCAL G == INSTANCE Big WITH Base <- 8192       \* thirteen bits a digit
LOCAL D == INSTANCE Big WITH Base <- 10000      \* four decimal digits a digit
CONSTANT W

Val(v) == [k |-> "ok", v |-> v]
Fail == [k |-> "err", v |-> <<>>]
Zeros == [i \in 1..W |-> 0]
Truth(p) == Val([Zeros EXCEPT ![1] = IF p THEN 1 ELSE 0])
Negative(a) == a[W] = 1

(* ---- literals: texts as sequences of characters ---- *)
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == c \in {Digits[i] : i \in 1..10}
DigitOf(c) == (CHOOSE i \in 1..10 : Digits[i] = c) - 1
LOCAL Pad(bits) == IF \E i \in W..Len(bits) : bits[i] = 1 THEN Fail ELSE Val([i \in 1..W |-> IF i <= Len(bits) THEN bits[i] ELSE 0])
(* decimal digits -> base 10000 -> bits *)
LOCAL Limb(cs) == FoldLeft(LAMBDA t, c : 10 * t + DigitOf(c), 0, cs)
RECURSIVE LimbsOf(_)
LimbsOf(cs) == IF cs = <<>> THEN <<>> ELSE IF Len(cs) <= 4 THEN <<Limb(cs)>> ELSE <<Limb(SubSeq(cs, Len(cs) - 3, Len(cs)))>> \o LimbsOf(SubSeq(cs, 1, Len(cs) - 4))
RECURSIVE BitsOf(_)
BitsOf(m) == IF m = <<>> THEN <<>> ELSE LET q == D!NDivMod(m, <<8192>>) c == IF q[2] = <<>> THEN 0 ELSE q[2][1] IN [i \in 1..13 |-> (c \div 2 ^ (i - 1)) % 2] \o BitsOf(q[1])
Literal(cs) ==
  IF cs = <<>> THEN Fail
  ELSE IF cs[1] = "b" THEN
    IF Len(cs) > 1 /\ \A i \in 2..Len(cs) : cs[i] \in {"0", "1"} THEN Pad(Reverse([i \in 1..(Len(cs) - 1) |-> DigitOf(cs[i + 1])])) ELSE Fail
  ELSE IF \A i \in DOMAIN cs : IsDigit(cs[i]) THEN Pad(BitsOf(D!NTrim(LimbsOf(cs)))) ELSE Fail

Not(a) == [i \in 1..W |-> 1 - a[i]]
(* the value of an operand that is given as sign and decimal digits: -x is ~(x - 1) *)
RECURSIVE Less1(_, _)
Less1(a, i) == IF a[i] = 1 THEN [a EXCEPT ![i] = 0] ELSE Less1([a EXCEPT ![i] = 1], i + 1)
Negated(a) == IF a = Zeros THEN a ELSE Not(Less1(a, 1))
Least == [Zeros EXCEPT ![W] = 1]
SignedLit(cs) ==
  IF cs # <<>> /\ cs[1] = "-" THEN
    LET b == BitsOf(D!NTrim(LimbsOf(Tail(cs)))) p == [i \in 1..W |-> IF i <= Len(b) THEN b[i] ELSE 0] IN
    IF p = Least THEN Val(Least) ELSE IF Pad(b).k = "ok" THEN Val(Negated(p)) ELSE Fail
  ELSE Literal(cs)

(* ---- the operators ---- *)
And(a, b) == [i \in 1..W |-> a[i] * b[i]]
Or(a, b) == [i \in 1..W |-> a[i] + b[i] - a[i] * b[i]]
Xor(a, b) == [i \in 1..W |-> (a[i] + b[i]) % 2]
RECURSIVE LessAt(_, _, _)
LessAt(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessAt(a, b, i - 1)
Less(a, b) == IF a[W] # b[W] THEN a[W] = 1 ELSE LessAt(a, b, W - 1)
(* a shift by less than W; -1 otherwise *)
LOCAL Top(n) == IF n <= 1 THEN 0 ELSE CHOOSE k \in 1..8 : 2 ^ k = n
Amount(b) == IF \E i \in (Top(W) + 1)..W : b[i] = 1 THEN -1 ELSE FoldLeft(LAMBDA t, i : t + b[i] * 2 ^ (i - 1), 0, [i \in 1..Top(W) |-> i])
Shl(a, n) == [i \in 1..W |-> IF i > n THEN a[i - n] ELSE 0]
Shr(a, n) == [i \in 1..W |-> IF i + n <= W THEN a[i + n] ELSE a[W]]

Names == [not |-> {"~", "not"}, and |-> {"&", "and"}, or |-> {"|", "or"}, xor |-> {"^", "xor"}, shl |-> {"<<", "shl"}, shr |-> {">>", "shr"},
          eq |-> {"==", "eq", "equal"}, ne |-> {"!=", "ne", "no_equal"}, lt |-> {"<", "lt"}, le |-> {"<=", "lte"}, gt |-> {">", "gt"}, ge |-> {">=", "gte"}]
Op(o) == CHOOSE x \in DOMAIN Names : o \in Names[x]
Unary == Names["not"]
Binary == UNION {Names[x] : x \in DOMAIN Names \ {"not"}}
(* a higher precedence binds tighter; equal ones from the left *)
Prec(o) == LET x == Op(o) IN CASE x = "or" -> 13 [] x = "xor" -> 12 [] x = "and" -> 11 [] x \in {"eq", "ne"} -> 10 [] x \in {"lt", "le", "gt", "ge"} -> 9 [] x \in {"shl", "shr"} -> 7

Apply2(o, a, b) ==
  LET x == Op(o) IN
  CASE x = "and" -> Val(And(a, b)) [] x = "or" -> Val(Or(a, b)) [] x = "xor" -> Val(Xor(a, b))
  [] x = "shl" -> LET n == Amount(b) IN IF n < 0 THEN Fail ELSE Val(Shl(a, n))
  [] x = "shr" -> LET n == Amount(b) IN IF n < 0 THEN Fail ELSE Val(Shr(a, n))
  [] x = "eq" -> Truth(a = b) [] x = "ne" -> Truth(a # b)
  [] x = "lt" -> Truth(Less(a, b)) [] x = "le" -> Truth(~Less(b, a)) [] x = "gt" -> Truth(Less(b, a)) [] x = "ge" -> Truth(~Less(a, b))

(* ---- expressions: a sequence operand op operand ...; an operand is
   [t |-> "lit", s], [t |-> "par", e] or [t |-> "una", x] with an operand x ---- *)
RECURSIVE Value(_), Operand(_)
Operand(x) == CASE x.t = "lit" -> Literal(x.s)
              [] x.t = "slit" -> SignedLit(x.s)
              [] x.t = "par" -> Value(x.e)
              [] x.t = "una" -> LET r == Operand(x.x) IN IF r.k = "err" THEN Fail ELSE Val(Not(r.v))
Value(e) ==
  IF Len(e) = 1 THEN Operand(e[1]) ELSE
  LET ops == {i \in DOMAIN e : i % 2 = 0}
      low == CHOOSE p \in {Prec(e[i]) : i \in ops} : \A i \in ops : p <= Prec(e[i])
      at == CHOOSE i \in ops : Prec(e[i]) = low /\ \A j \in ops : Prec(e[j]) = low => j <= i
      a == Value(SubSeq(e, 1, at - 1))
      b == Value(SubSeq(e, at + 1, Len(e)))
  IN IF a.k = "err" \/ b.k = "err" THEN Fail ELSE Apply2(e[at], a.v, b.v)

(* ---- what is displayed ---- *)
RECURSIVE Trim(_)
Trim(b) == IF Len(b) > 1 /\ b[Len(b)] = 0 THEN Trim(SubSeq(b, 1, Len(b) - 1)) ELSE b
Shown(a) == [i \in 1..Len(Trim(a)) |-> Digits[1 + Trim(a)[Len(Trim(a)) + 1 - i]]]
=============================================================================
