------------------------------- MODULE Vocab -------------------------------
(* What each shipped context registers, and how many arguments each function takes. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Families == {"checked", "unchecked", "decimal", "complex", "binary"}

Trig == {"sin", "cos", "tan", "csc", "sec", "cot", "asin", "acos", "atan", "acsc", "asec", "acot",
         "sinh", "cosh", "tanh", "csch", "sech", "coth", "asinh", "acosh", "atanh", "acsch", "asech", "acoth"}
Real == {"max", "min", "to_radians", "to_degrees"}
Rounding == {"floor", "ceil", "truncate", "round"}
Common == Trig \cup {"sum", "product", "avg", "sqrt", "ln", "log", "exp", "random"}

Funs(f) ==
  CASE f = "checked" -> Common \cup Real \cup Rounding \cup {"abs", "sign"}
  [] f = "unchecked" -> Common \cup Real
  [] f = "decimal" -> Common \cup Real \cup Rounding \cup {"cbrt"}
  [] f = "complex" -> Common
  [] f = "binary" -> {}

(* least and largest number of arguments *)
Many == 1000
Arity(f, fn) ==
  CASE fn \in {"max", "min"} -> <<2, Many>>
  [] fn \in {"sum", "product", "avg"} -> <<1, Many>>
  [] fn = "random" -> <<0, 2>>
  [] fn = "log" -> <<1, 2>>
  [] fn = "atan" /\ f \in {"checked", "unchecked", "decimal"} -> <<1, 2>>
  [] OTHER -> <<1, 1>>
Takes(f, fn, n) == LET a == Arity(f, fn) IN a[1] <= n /\ n <= a[2]

Consts(f) == CASE f \in {"checked", "unchecked", "decimal"} -> {"PI", "E"} [] f = "complex" -> {"PI", "E", "i"} [] OTHER -> {}

Bin(o, p, l) == [name |-> o, prec |-> p, left |-> l]
Arith == {Bin("+", 1, TRUE), Bin("-", 1, TRUE), Bin("*", 2, TRUE), Bin("/", 2, TRUE), Bin("mod", 2, TRUE), Bin("^", 3, FALSE)}
Alias(os, p) == {Bin(o, p, TRUE) : o \in os}
Bins(f) == IF f # "binary" THEN Arith ELSE
  Alias({"&", "and"}, 11) \cup Alias({"^", "xor"}, 12) \cup Alias({"|", "or"}, 13) \cup Alias({"<<", "shl", ">>", "shr"}, 7)
  \cup Alias({"==", "eq", "equal", "!=", "ne", "no_equal"}, 10) \cup Alias({"<", "lt", "<=", "lte", ">", "gt", ">=", "gte"}, 9)

Una(o, p) == [name |-> o, prefix |-> p]
Unas(f) ==
  CASE f = "binary" -> {Una("~", TRUE), Una("not", TRUE)}
  [] f = "complex" -> {Una("-", TRUE), Una("+", TRUE)}
  [] OTHER -> {Una("-", TRUE), Una("+", TRUE), Una("!", FALSE)}

(* the names that mean the same operator *)
Same(f, a) == IF f # "binary" THEN {a} ELSE
  CHOOSE s \in {{"&", "and"}, {"^", "xor"}, {"|", "or"}, {"<<", "shl"}, {">>", "shr"}, {"==", "eq", "equal"}, {"!=", "ne", "no_equal"},
                {"<", "lt"}, {"<=", "lte"}, {">", "gt"}, {">=", "gte"}, {"~", "not"}} : a \in s

NoShadow(f) ==
  /\ Consts(f) \cap Funs(f) = {} /\ {b.name : b \in Bins(f)} \cap (Funs(f) \cup Consts(f)) = {}
  /\ \A a, b \in Bins(f) : a.name = b.name => a = b
  /\ \A a, b \in Unas(f) : a.name = b.name => a = b
  /\ {"PI", "E", "i"} \cap Funs(f) = {}
=============================================================================
