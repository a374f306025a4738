------------------------------- MODULE Ints -------------------------------
(* Checked integer arithmetic: exact, or an error. A type is its least and largest value. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
INSTANCE Big WITH Base <- 10000

Signed(bits) == [lo |-> Neg(Mk(1, NPow(<<2>>, bits - 1))), hi |-> Sub(Mk(1, NPow(<<2>>, bits - 1)), One)]
Unsigned(bits) == [lo |-> Zero, hi |-> Sub(Mk(1, NPow(<<2>>, bits)), One)]

Ok(v) == [k |-> "ok", v |-> v]
Fail == [k |-> "err", v |-> Zero]
In(ty, v) == Le(ty.lo, v) /\ Le(v, ty.hi)
Fit(ty, v) == IF In(ty, v) THEN Ok(v) ELSE Fail

Bin(ty, op, a, b) ==
  CASE op = "+" -> Fit(ty, Add(a, b))
  [] op = "-" -> Fit(ty, Sub(a, b))
  [] op = "*" -> Fit(ty, Mul(a, b))
  [] op = "/" -> IF b = Zero THEN Fail ELSE Fit(ty, Quot(a, b))
  [] op = "mod" -> IF b = Zero THEN Fail ELSE IF In(ty, Quot(a, b)) THEN Ok(Rem(a, b)) ELSE Fail

(* running products, from the top down as long as they fit *)
RECURSIVE Fact(_, _, _)
Fact(ty, total, next) == IF Le(next, One) THEN Ok(total) ELSE LET t == Mul(total, next) IN IF In(ty, t) THEN Fact(ty, t, Sub(next, One)) ELSE Fail

Una(ty, op, a) ==
  CASE op = "-" -> Fit(ty, Neg(a))
  [] op = "+" -> Ok(a)
  [] op = "!" -> IF a.s < 0 THEN Fail ELSE IF a.s = 0 THEN Ok(One) ELSE Fact(ty, a, Sub(a, One))
  [] op = "abs" -> Fit(ty, Abs(a))

Running(ty, op, as) == FoldLeft(LAMBDA r, a : IF r.k = "err" THEN r ELSE Bin(ty, op, r.v, a), Ok(as[1]), Tail(as))
Best(as, up) == FoldLeft(LAMBDA m, a : IF (up /\ Lt(m, a)) \/ (~up /\ Lt(a, m)) THEN a ELSE m, as[1], Tail(as))
Fun(ty, fn, as) ==
  CASE fn = "sum" -> IF as = <<>> THEN Fail ELSE Running(ty, "+", as)
  [] fn = "product" -> IF as = <<>> THEN Fail ELSE Running(ty, "*", as)
  [] fn = "avg" -> IF as = <<>> THEN Fail ELSE
       LET r == Running(ty, "+", as) n == Whole(Len(as)) IN IF r.k = "err" \/ ~In(ty, n) THEN Fail ELSE Ok(Quot(r.v, n))
  [] fn = "max" -> IF Len(as) < 2 THEN Fail ELSE Ok(Best(as, TRUE))
  [] fn = "min" -> IF Len(as) < 2 THEN Fail ELSE Ok(Best(as, FALSE))
  [] fn = "abs" -> IF Len(as) # 1 THEN Fail ELSE Una(ty, "abs", as[1])

(* a postfix program on a stack: [t |-> "n", v], [t |-> "bin" or "una", o] or [t |-> "fn", o, n] *)
Step(ty, st, i) ==
  IF ~st.ok THEN st ELSE
  LET n == Len(st.s)
      take == CASE i.t = "n" -> 0 [] i.t = "bin" -> 2 [] i.t = "una" -> 1 [] i.t = "fn" -> i.n
      r == CASE i.t = "n" -> Fit(ty, i.v)
           [] i.t = "bin" -> Bin(ty, i.o, st.s[n - 1], st.s[n])
           [] i.t = "una" -> Una(ty, i.o, st.s[n])
           [] i.t = "fn" -> Fun(ty, i.o, SubSeq(st.s, n - i.n + 1, n))
  IN IF r.k = "err" THEN [ok |-> FALSE, s |-> <<>>] ELSE [ok |-> TRUE, s |-> Append(SubSeq(st.s, 1, n - take), r.v)]
Run(ty, prog) == LET st == FoldLeft(LAMBDA s, i : Step(ty, s, i), [ok |-> TRUE, s |-> <<>>], prog) IN IF st.ok THEN Ok(st.s[1]) ELSE Fail
=============================================================================
