------------------------------ MODULE MCFixed ------------------------------
(* The reference functions: the identities that define them, on a grid of arguments. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Grid, Den
F == INSTANCE Fixed
B == INSTANCE Big WITH Base <- 10000
VARIABLES a, b
Num(n) == F!DivInt(F!Int_(n), Den)
Init == a \in 0..Grid /\ b \in 0..Grid
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
X == Num(a - Grid \div 2)
Y == Num(3 * b - Grid)
Near(x, y) == F!Le(F!Abs(F!Sub(x, y)), F!Mul(F!Small(19), F!Larger(F!One, F!Abs(x))))
Circle == b = 0 =>
  LET d == F!MulInt(X, 100) IN
  /\ Near(F!Add(F!Sq(F!SinDeg(d)), F!Sq(F!CosDeg(d))), F!One)
  /\ Near(F!SinDeg(F!Neg(d)), F!Neg(F!SinDeg(d)))
  /\ Near(F!SinDeg(F!Sub(F!Int_(90), d)), F!CosDeg(d))
  /\ Near(F!Add(F!Sq(F!Sin(X)), F!Sq(F!Cos(X))), F!One)
Sums ==
  /\ Near(F!Mul(F!Exp(X), F!Exp(Y)), F!Exp(F!Add(X, Y)))
  /\ Near(F!Sin(F!Add(X, Y)), F!Add(F!Mul(F!Sin(X), F!Cos(Y)), F!Mul(F!Cos(X), F!Sin(Y))))
Logs == b = 0 =>
  /\ Near(F!Ln(F!Exp(X)), X)
  /\ F!Le(F!Abs(F!Sub(F!Sq(F!Cosh(X)), F!Add(F!One, F!Sq(F!Sinh(X))))), F!Mul(F!Small(18), F!Sq(F!Cosh(X))))
Gammas == (b = 0 /\ X.s >= 0) =>
  LET f == F!Fact(X) g == F!Fact(F!Add(X, F!One)) z == F!Add(X, F!One) IN
  /\ F!Le(F!Abs(F!Sub(F!Mul(z, f), g)), F!Mul(F!Small(14), g))
  /\ F!Le(F!Abs(F!Sub(F!Mul(f, F!Fact(F!Add(X, Num(Den \div 2)))),                      \* duplication
       F!Div(F!Mul(F!Exp(F!DivInt(F!Ln(F!Pi), 2)), F!Fact(F!Add(F!MulInt(X, 2), F!One))), F!Exp(F!Mul(F!Add(F!MulInt(X, 2), F!One), F!Ln(F!Two)))))),
       F!Mul(F!Small(13), F!Larger(F!One, F!Mul(f, g))))
Known == (a = 0 /\ b = 0) =>
  /\ Near(F!SinDeg(F!Int_(30)), F!DivInt(F!One, 2)) /\ Near(F!CosDeg(F!Int_(60)), F!DivInt(F!One, 2))
  /\ Near(F!SinDeg(F!Int_(180)), F!Zero) /\ Near(F!SinDeg(F!Int_(-90)), F!Int_(-1))
  /\ Near(F!Exp(F!One), B!Mk(1, <<287, 3536, 452, 8459, 8182, 7182, 2>>)) /\ Near(F!Ln(F!Two), B!Mk(1, <<7232, 941, 9453, 559, 4718, 6931>>))
  /\ F!Le(F!Abs(F!Sub(F!Fact(F!Int_(5)), F!Int_(120))), F!Small(16)) /\ F!Le(F!Abs(F!Sub(F!Sq(F!Fact(F!Neg(F!DivInt(F!One, 2)))), F!Pi)), F!Small(17))
  /\ F!Floor(F!DivInt(F!Int_(-7), 2)) = F!Int_(-4) /\ F!Floor(F!Int_(3)) = F!Int_(3) /\ F!Floor(F!DivInt(F!Int_(7), 2)) = F!Int_(3)
=============================================================================
