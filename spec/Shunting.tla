------------------------------ MODULE Shunting ------------------------------
(* The conversion as the code performs it: one step per token over an operator stack, the
   output, the comma counters of the open calls and the positions of the open groups.
   A step needs the token before and the token after the one it reads. *)
EXTENDS Grammar

Sh0 == [out |-> <<>>, ops |-> <<>>, argc |-> <<>>, grp |-> <<>>, err |-> FALSE]
Bad(st) == [st EXCEPT !.err = TRUE]
Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)

IsOperandTok(t) == t[1] \in {"num", "var", "const"}
EndsOperand(ctx, t) == IsOperandTok(t) \/ t[1] = "close" \/ (t[1] = "una" /\ IsPostfixOp(ctx, t[2]))

(* operands and operators alternate *)
Position(ctx, prev, t) ==
  LET after == EndsOperand(ctx, prev)  call == prev[1] = "fn" IN
  CASE t[1] \in {"num", "var", "const", "fn", "open"} ->
         IF after THEN ctx.implicit /\ (prev[1] = "close" \/ (prev[1] = "num" /\ t[1] # "num"))
         ELSE ~call \/ t[1] = "open"
    [] t[1] = "una" -> IF IsPostfixOp(ctx, t[2]) THEN after ELSE ~after /\ ~call
    [] t[1] \in {"bin", "comma"} -> after
    [] t[1] = "close" -> after \/ prev[1] = "open"
    [] OTHER -> TRUE

(* pop the operators for which P holds to the output, from the top down to the first one for which it does not *)
PopWhile(st, P(_)) ==
  LET keep == CHOOSE k \in 0..Len(st.ops) :
                /\ k = 0 \/ ~P(st.ops[k])
                /\ \A j \in (k + 1)..Len(st.ops) : P(st.ops[j]) IN
  [st EXCEPT !.out = @ \o Reverse(SubSeq(st.ops, keep + 1, Len(st.ops))), !.ops = SubSeq(st.ops, 1, keep)]

FlushPrefix(st) == PopWhile(st, LAMBDA x: x[1] = "una")

PushBinary(ctx, st, t) ==
  IF ~IsBin(ctx, t[2]) THEN Bad(st)
  ELSE LET o == BinOf(ctx, t[2])
           goes(x) == \/ x[1] = "fn"
                      \/ x[1] = "bin" /\ LET b == BinOf(ctx, x[2]) IN b.prec > o.prec \/ (b.prec = o.prec /\ b.left)
           s == PopWhile(st, goes)
       IN [s EXCEPT !.ops = Append(s.ops, t)]

PushClose(ctx, st, prev, t) ==
  LET s == PopWhile(st, LAMBDA x: x[1] # "open") IN
  IF s.ops = <<>> \/ ~Matches(Top(s.ops), t) THEN Bad(s)
  ELSE LET q == [s EXCEPT !.ops = Pop(s.ops)] IN
       IF q.argc # <<>> /\ q.ops # <<>> /\ Top(q.ops)[1] = "fn"
       THEN LET n == IF prev[1] = "open" THEN 0 ELSE Top(q.argc) + 1 IN
            [q EXCEPT !.out = q.out \o <<<<"argc", <<>>, n>>, Top(q.ops)>>, !.ops = Pop(q.ops), !.argc = Pop(q.argc)]
       ELSE q

(* toks: the whole sequence, i: the position read; the code looks back and one ahead only *)
Step(ctx, toks, i, st) ==
  LET t == toks[i]
      prev == IF i = 1 THEN End ELSE toks[i - 1]
      next == At(toks, i + 1)
      main ==
        IF ~Position(ctx, prev, t) THEN Bad(st)
        ELSE CASE IsOperandTok(t) -> FlushPrefix([st EXCEPT !.out = Append(st.out, t)])
               [] t[1] = "bin" -> PushBinary(ctx, st, t)
               [] t[1] = "una" ->
                    IF ~IsUna(ctx, t[2]) THEN Bad(st)
                    ELSE IF IsPrefixOp(ctx, t[2]) THEN [st EXCEPT !.ops = Append(st.ops, t)]
                    ELSE IF st.out = <<>> THEN Bad(st) ELSE [st EXCEPT !.out = Append(st.out, t)]
               [] t[1] = "fn" ->
                    IF ~ctx.custom /\ ~(next[1] \in {"open", "close"} /\ next[2] = <<"(">>) THEN Bad(st)
                    ELSE [st EXCEPT !.argc = Append(st.argc, 0), !.ops = Append(st.ops, t)]
               [] t[1] = "open" ->
                    [st EXCEPT !.ops = Append(st.ops, t), !.grp = IF st.argc # <<>> THEN Append(st.grp, i) ELSE st.grp]
               [] t[1] = "close" ->
                    LET c == FlushPrefix(PushClose(ctx, st, prev, t)) IN
                    IF c.err \/ (prev[1] = "open" /\ Matches(prev, t) /\ ~(i > 2 /\ toks[i - 2][1] = "fn")) THEN Bad(c)
                    ELSE IF c.argc # <<>> /\ c.grp # <<>> THEN [c EXCEPT !.grp = Pop(c.grp)] ELSE c
               [] t[1] = "comma" ->
                    IF \/ i = 1 \/ prev[1] = "open" \/ next[1] = "close"
                       \/ st.grp # <<>> /\ ~(Top(st.grp) > 1 /\ toks[Top(st.grp) - 1][1] = "fn")
                       \/ st.argc = <<>>
                    THEN Bad(st)
                    ELSE LET s == PopWhile([st EXCEPT !.argc[Len(st.argc)] = @ + 1], LAMBDA x: x[1] # "open") IN
                         IF s.ops = <<>> THEN Bad(s) ELSE s
               [] OTHER -> Bad(st)
      mul == /\ ctx.implicit
             /\ \/ t[1] = "num" /\ next[1] \in {"fn", "const", "var", "open"}
                \/ t[1] = "close" /\ next[1] \in {"num", "var", "const", "fn", "open"}
  IN IF st.err THEN st ELSE IF main.err THEN main ELSE IF mul THEN PushBinary(ctx, main, Star) ELSE main

Finish(ctx, toks, st) ==
  IF st.err \/ toks = <<>> \/ ~EndsOperand(ctx, toks[Len(toks)]) \/ \E k \in DOMAIN st.ops : st.ops[k][1] = "open"
  THEN [ok |-> FALSE, v |-> <<>>]
  ELSE [ok |-> TRUE, v |-> st.out \o Reverse(st.ops)]

Convert(ctx, toks) == Finish(ctx, toks, FoldLeft(LAMBDA st, i: Step(ctx, toks, i, st), Sh0, [i \in DOMAIN toks |-> i]))

-----------------------------------------------------------------------------
(* Running a postfix order on a stack of values, as the evaluator does. *)
RunStep(ctx, st, t) ==
  IF st.err THEN st
  ELSE CASE t[1] = "num" -> [st EXCEPT !.vals = Append(st.vals, <<<<"n", t[2], 0>>>>)]
         [] t[1] = "var" -> IF IsVar(ctx, t[2]) THEN [st EXCEPT !.vals = Append(st.vals, <<<<"v", t[2], 0>>>>)] ELSE Bad(st)
         [] t[1] = "const" -> IF IsConst(ctx, t[2]) THEN [st EXCEPT !.vals = Append(st.vals, <<<<"c", ConstOf(ctx, t[2]), 0>>>>)] ELSE Bad(st)
         [] t[1] = "argc" -> [st EXCEPT !.n = t[3]]
         [] t[1] = "una" ->
              IF ~IsUna(ctx, t[2]) \/ st.vals = <<>> THEN Bad(st)
              ELSE IF UnaOf(ctx, t[2]).fails THEN Bad(st)
              ELSE [st EXCEPT !.vals = Append(Pop(st.vals), Append(Top(st.vals), <<"u", UnaOf(ctx, t[2]).id, 0>>))]
         [] t[1] = "bin" ->
              IF ~IsBin(ctx, t[2]) \/ Len(st.vals) < 2 THEN Bad(st)
              ELSE IF BinOf(ctx, t[2]).fails THEN Bad(st)
              ELSE LET r == Top(st.vals) l == Top(Pop(st.vals)) IN
                   [st EXCEPT !.vals = Append(Pop(Pop(st.vals)), (l \o r) \o <<<<"b", BinOf(ctx, t[2]).id, 0>>>>)]
         [] t[1] = "fn" ->
              IF ~IsFn(ctx, t[2]) \/ st.n = -1 \/ Len(st.vals) < st.n THEN Bad(st)
              ELSE IF FnOf(ctx, t[2]).fails THEN Bad(st)
              ELSE LET k == Len(st.vals) - st.n
                       args == FlattenSeq(SubSeq(st.vals, k + 1, Len(st.vals))) IN
                   [vals |-> Append(SubSeq(st.vals, 1, k), Append(args, <<"f", FnOf(ctx, t[2]).id, st.n>>)), n |-> -1, err |-> FALSE]
         [] OTHER -> Bad(st)
Run(ctx, p) ==
  IF ~p.ok THEN p
  ELSE LET r == FoldLeft(LAMBDA st, t: RunStep(ctx, st, t), [vals |-> <<>>, n |-> -1, err |-> FALSE], p.v) IN
       IF r.err \/ Len(r.vals) # 1 THEN [ok |-> FALSE, v |-> <<>>] ELSE [ok |-> TRUE, v |-> r.vals[1]]

-----------------------------------------------------------------------------
(* The calls a run makes: which function, with how many arguments, and the arguments in a row;
   the last one may fail, and with it the run. *)
CallStep(ctx, st, t) ==
  LET call ==
        CASE t[1] = "una" /\ IsUna(ctx, t[2]) /\ st.vals # <<>> ->
               LET u == UnaOf(ctx, t[2]) IN [is |-> TRUE, fails |-> u.fails, v |-> <<"u", u.id, 1, Top(st.vals)>>]
          [] t[1] = "bin" /\ IsBin(ctx, t[2]) /\ Len(st.vals) > 1 ->
               LET b == BinOf(ctx, t[2]) IN [is |-> TRUE, fails |-> b.fails, v |-> <<"b", b.id, 2, Top(Pop(st.vals)) \o Top(st.vals)>>]
          [] t[1] = "fn" /\ IsFn(ctx, t[2]) /\ st.n # -1 /\ Len(st.vals) >= st.n ->
               LET f == FnOf(ctx, t[2]) IN
               [is |-> TRUE, fails |-> f.fails, v |-> <<"f", f.id, st.n, FlattenSeq(SubSeq(st.vals, Len(st.vals) - st.n + 1, Len(st.vals)))>>]
          [] OTHER -> [is |-> FALSE, fails |-> FALSE, v |-> <<>>]
      r == RunStep(ctx, [vals |-> st.vals, n |-> st.n, err |-> FALSE], t)
  IN IF st.err THEN st
     ELSE [vals |-> r.vals, n |-> r.n, err |-> r.err, calls |-> IF call.is THEN Append(st.calls, call.v) ELSE st.calls,
           why |-> IF call.is /\ call.fails THEN call.v[2] ELSE <<>>]
RunCalls(ctx, p) ==
  IF ~p.ok THEN [calls |-> <<>>, why |-> <<>>]
  ELSE LET r == FoldLeft(LAMBDA st, t: CallStep(ctx, st, t), [vals |-> <<>>, n |-> -1, err |-> FALSE, calls |-> <<>>, why |-> <<>>], p.v)
       IN [calls |-> r.calls, why |-> r.why]
(* A function that fails does so with an error of the kind its last digit tells, with its id for a text. *)
FailKinds == <<"Overflow", "Zero", "NAN", "InvalidInput", "InvalidArgumentCount", "DivisionByZero", "NegativeValue", "PositiveValue", "InvalidExpression", "Empty">>
Why(id) == [k |-> "err", kind |-> FailKinds[1 + (CHOOSE d \in 0..9 : ToString(d) = id[Len(id)])], text |-> id]
=============================================================================
