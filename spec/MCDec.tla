------------------------------- MODULE MCDec -------------------------------
(* A small decimal type (two digits after the point, at most MaxM in the coefficient) against TLC's
   own integers, and a calculator over it. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Coefs, Steps
M == 199
D == INSTANCE Dec WITH MaxM <- <<M>>, MaxE <- 2
VARIABLES acc, last, n
vars == <<acc, last, n>>
Values == {x \in [s : {-1, 0, 1}, m : {<<>>} \cup {<<c>> : c \in Coefs}, e : 0..2] : (x.s = 0) = (x.m = <<>>) /\ (x.m = <<>> => x.e = 0)}
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
Mag(a) == IF a < 0 THEN -a ELSE a
C(x) == x.s * (IF x.m = <<>> THEN 0 ELSE x.m[1] + (IF Len(x.m) > 1 THEN 10000 * x.m[2] ELSE 0))
(* in hundredths *)
H(x) == C(x) * 10 ^ (2 - x.e)
HX(x) == IF x.e < 0 THEN C(x) * 10 ^ (2 - x.e) ELSE H(x)
Init == acc \in {D!Exact(D!Norm(v)) : v \in Values} /\ last = <<>> /\ n = 0
Next == /\ acc.k = "ok" /\ n < Steps /\ n' = n + 1
        /\ \/ \E o \in {"+", "-", "*", "/", "mod"}, y \in Values : acc' = D!Bin(o, acc.v, y) /\ last' = <<o, acc.v, y>>
           \/ \E p \in -3..3 : acc' = D!Power(acc.v, p) /\ last' = <<"pow", acc.v, p>>
           \/ \E f \in {"floor", "ceil", "truncate"} : acc' = D!Fun(f, <<acc.v>>) /\ last' = <<f, acc.v, 0>>
Spec == Init /\ [][Next]_vars
(* a hundredth count h is held when some coefficient and scale give it *)
HeldH(h) == \/ Mag(h) <= M \/ (h % 10 = 0 /\ Mag(h) \div 10 <= M) \/ (h % 100 = 0 /\ Mag(h) \div 100 <= M)
(* num/den hundredths *)
Right(num, den) ==
  LET u == Mag(num) d == Mag(den) sg == Sgn(num) * Sgn(den) h == sg * (u \div d) IN
  IF u % d = 0 /\ HeldH(h) THEN acc.k = "ok" /\ HX(acc.v) = h
  ELSE IF u >= (M + 1) * 100 * d THEN acc.k = "err"
  ELSE acc.k = "near"
Agrees ==
  last # <<>> =>
    LET o == last[1] x == last[2] IN
    CASE o = "+" -> Right(HX(x) + HX(last[3]), 1)
    [] o = "-" -> Right(HX(x) - HX(last[3]), 1)
    [] o = "*" -> Right(HX(x) * HX(last[3]), 100)
    [] o = "/" -> IF H(last[3]) = 0 THEN acc.k = "err" ELSE Right(HX(x) * 100, HX(last[3]))
    [] o = "mod" -> IF H(last[3]) = 0 THEN acc.k = "err" ELSE Right(Sgn(HX(x)) * (Mag(HX(x)) % Mag(HX(last[3]))), 1)
    [] o = "floor" -> Right(100 * (HX(x) \div 100), 1)
    [] o = "ceil" -> Right(-(100 * ((-HX(x)) \div 100)), 1)
    [] o = "truncate" -> Right(100 * Sgn(HX(x)) * (Mag(HX(x)) \div 100), 1)
    [] o = "pow" /\ last[3] >= 2 -> last[3] = 2 => Right(HX(x) * HX(x), 100)
    [] o = "pow" /\ last[3] = -1 -> IF HX(x) = 0 THEN acc.k = "err" ELSE Right(10000, HX(x))
    [] OTHER -> TRUE
Held == acc.k = "ok" => D!Holds(acc.v) /\ D!Allowed(acc, acc, 0)
=============================================================================
