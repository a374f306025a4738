------------------------------ MODULE Grammar ------------------------------
(* The meaning of a token sequence: which ones are expressions, and the structure of each,
   written as its postfix order with one argument count before each function.

     expr    ::= operand ( binop operand )*         grouped by precedence and associativity
     operand ::= prefix* primary postfix*           a prefix applies before any postfix
     primary ::= num | var | const | open expr close | fn open [ expr (comma expr)* ] close

   With implicit multiplication a primary that is a number may be followed directly by a name,
   a call or a group, and one that is a group or a call also by a number: `*` is meant. *)
EXTENDS Tokens

End == <<"end", <<>>, 0>>
At(T, i) == IF i <= Len(T) THEN T[i] ELSE End
Fail == [ok |-> FALSE, i |-> 0, out |-> <<>>, last |-> "none"]
Star == <<"bin", <<"*">>, 0>>

Matches(o, c) == o[1] = "open" /\ c[1] = "close" /\ Match[o[2][1]] = c[2][1]

(* last: how the operand ends, for the implicit multiplication: "num", "close" or "other" *)
RECURSIVE PExpr(_, _, _, _), PClimb(_, _, _, _, _), POperand(_, _, _), PPrimary(_, _, _), PArgs(_, _, _, _, _), PPostfix(_, _, _)

(* The operator that stands at i after an operand ending in `last`: [found, op, next]. *)
OpAt(ctx, T, i, last) ==
  LET t == At(T, i) IN
  IF t[1] = "bin" /\ IsBin(ctx, t[2]) THEN [found |-> TRUE, op |-> t, next |-> i + 1]
  ELSE IF /\ ctx.implicit /\ IsBin(ctx, <<"*">>)
          /\ \/ last = "num" /\ t[1] \in {"var", "const", "fn", "open"}
             \/ last = "close" /\ t[1] \in {"num", "var", "const", "fn", "open"}
  THEN [found |-> TRUE, op |-> Star, next |-> i]
  ELSE [found |-> FALSE, op |-> End, next |-> i]

PExpr(ctx, T, i, min) ==
  LET l == POperand(ctx, T, i) IN IF ~l.ok THEN Fail ELSE PClimb(ctx, T, l, min, l.i)

(* Precedence climbing: the operand so far takes every operator of at least the precedence min. *)
PClimb(ctx, T, l, min, i) ==
  LET o == OpAt(ctx, T, i, l.last) IN
  IF ~o.found THEN l
  ELSE LET b == BinOf(ctx, o.op[2]) IN
       IF b.prec < min THEN l
       ELSE LET r == PExpr(ctx, T, o.next, IF b.left THEN b.prec + 1 ELSE b.prec) IN
            IF ~r.ok THEN Fail
            ELSE PClimb(ctx, T, [ok |-> TRUE, i |-> r.i, out |-> (l.out \o r.out) \o <<o.op>>, last |-> r.last], min, r.i)

PPostfix(ctx, T, p) ==
  LET t == At(T, p.i) IN
  IF t[1] = "una" /\ IsPostfixOp(ctx, t[2])
  THEN PPostfix(ctx, T, [ok |-> TRUE, i |-> p.i + 1, out |-> Append(p.out, t), last |-> "other"])
  ELSE p

POperand(ctx, T, i) ==
  LET t == At(T, i) IN
  IF t[1] = "una" /\ IsPrefixOp(ctx, t[2])
  THEN \* the prefix goes right after the primary (and the prefixes nearer to it), before any postfix
       LET first == CHOOSE j \in i..(Len(T) + 1) :
                      /\ \A k \in i..(j - 1) : T[k][1] = "una" /\ IsPrefixOp(ctx, T[k][2])
                      /\ ~(At(T, j)[1] = "una" /\ IsPrefixOp(ctx, At(T, j)[2]))
           p == PPrimary(ctx, T, first) IN
       IF ~p.ok THEN Fail
       ELSE PPostfix(ctx, T, [p EXCEPT !.out = p.out \o [k \in 1..(first - i) |-> T[first - k]]])
  ELSE LET p == PPrimary(ctx, T, i) IN IF ~p.ok THEN Fail ELSE PPostfix(ctx, T, p)

PPrimary(ctx, T, i) ==
  LET t == At(T, i) IN
  CASE t[1] = "num" -> [ok |-> TRUE, i |-> i + 1, out |-> <<t>>, last |-> "num"]
    [] t[1] \in {"var", "const"} -> [ok |-> TRUE, i |-> i + 1, out |-> <<t>>, last |-> "other"]
    [] t[1] = "open" ->
         LET e == PExpr(ctx, T, i + 1, 0) IN
         IF e.ok /\ Matches(t, At(T, e.i)) THEN [ok |-> TRUE, i |-> e.i + 1, out |-> e.out, last |-> "close"] ELSE Fail
    [] t[1] = "fn" ->
         LET o == At(T, i + 1) IN
         IF o[1] # "open" \/ (~ctx.custom /\ o[2] # <<"(">>) THEN Fail
         ELSE IF Matches(o, At(T, i + 2))
         THEN [ok |-> TRUE, i |-> i + 3, out |-> <<<<"argc", <<>>, 0>>, t>>, last |-> "close"]
         ELSE LET a == PArgs(ctx, T, i + 2, <<>>, 1) IN
              IF a.ok /\ Matches(o, At(T, a.i))
              THEN [ok |-> TRUE, i |-> a.i + 1, out |-> a.out \o <<<<"argc", <<>>, a.n>>, t>>, last |-> "close"]
              ELSE Fail
    [] OTHER -> Fail

PArgs(ctx, T, i, out, n) ==
  LET e == PExpr(ctx, T, i, 0) IN
  IF ~e.ok THEN [ok |-> FALSE, i |-> 0, out |-> <<>>, n |-> 0]
  ELSE IF At(T, e.i)[1] = "comma" THEN PArgs(ctx, T, e.i + 1, out \o e.out, n + 1)
  ELSE [ok |-> TRUE, i |-> e.i, out |-> out \o e.out, n |-> n]

(* The postfix order of the sequence, or no expression. *)
Postfix(ctx, T) ==
  LET e == PExpr(ctx, T, 1, 0) IN
  IF e.ok /\ e.i = Len(T) + 1 THEN [ok |-> TRUE, v |-> e.out] ELSE [ok |-> FALSE, v |-> <<>>]

-----------------------------------------------------------------------------
(* The value: every token of the postfix order with what its name denotes. A function may fail. *)
Denote(ctx, t, prev) ==
  CASE t[1] = "num"   -> <<"n", t[2], 0>>
    [] t[1] = "var"   -> <<"v", t[2], 0>>
    [] t[1] = "const" -> <<"c", ConstOf(ctx, t[2]), 0>>
    [] t[1] = "bin"   -> <<"b", BinOf(ctx, t[2]).id, 0>>
    [] t[1] = "una"   -> <<"u", UnaOf(ctx, t[2]).id, 0>>
    [] t[1] = "fn"    -> <<"f", FnOf(ctx, t[2]).id, prev[3]>>
Known(ctx, t) ==
  CASE t[1] = "var" -> IsVar(ctx, t[2]) [] t[1] = "const" -> IsConst(ctx, t[2])
    [] t[1] = "fn" -> IsFn(ctx, t[2]) /\ ~FnOf(ctx, t[2]).fails
    [] t[1] = "bin" -> ~BinOf(ctx, t[2]).fails
    [] t[1] = "una" -> ~UnaOf(ctx, t[2]).fails
    [] OTHER -> TRUE
ValueOf(ctx, p) ==
  IF ~p.ok \/ \E i \in DOMAIN p.v : ~Known(ctx, p.v[i]) THEN [ok |-> FALSE, v |-> <<>>]
  ELSE LET keep == SelectSeq([i \in DOMAIN p.v |-> i], LAMBDA i: p.v[i][1] # "argc") IN
       [ok |-> TRUE, v |-> [k \in DOMAIN keep |-> Denote(ctx, p.v[keep[k]], IF keep[k] = 1 THEN End ELSE p.v[keep[k] - 1])]]
=============================================================================
