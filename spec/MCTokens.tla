------------------------------ MODULE MCTokens ------------------------------
(* Every token sequence of up to MaxLen tokens over the alphabet of a context, extended token by token:
   the conversion machine and the grammar agree on all of them, and each is written out with
   its meaning, to be replayed in the real conversion and evaluator. A sequence that is already
   wrong is only extended up to MaxBad tokens, and so is one that cannot become an expression of MaxLen. *)
EXTENDS Shunting, Integers, CSV

CONSTANTS MaxLen, MaxBad, Emit, Calls

Input == ndJsonDeserialize(IOEnv.VH_CTXS)     \* [ctx |-> context, toks |-> alphabet]
OutFile == IOEnv.VH_OUT
CtxTab == TLCEval([i \in DOMAIN Input |-> Prep(Input[i].ctx)])
AlphaTab == TLCEval([i \in DOMAIN Input |-> Rng(Input[i].toks)])

VARIABLES c, toks

(* the machine has read all but the last token *)
Sofar == FoldLeft(LAMBDA st, i: Step(CtxTab[c], toks, i, st), Sh0, [i \in 1..(Len(toks) - 1) |-> i])

(* the groups open can still be closed *)
Opens == Cardinality({i \in DOMAIN toks : toks[i][1] = "open"}) - Cardinality({i \in DOMAIN toks : toks[i][1] = "close"})
Hope == toks # <<>> => Len(toks) + Opens + (IF EndsOperand(CtxTab[c], toks[Len(toks)]) \/ toks[Len(toks)][1] = "open" THEN 0 ELSE 1) <= MaxLen

(* the number # stands for one that tells its position *)
Numbered(t, i) == IF t[2] = <<"#">> THEN <<t[1], IF i < 10 THEN <<ToString(i)>> ELSE <<"1", ToString(i - 10)>>, 0>> ELSE t

Init == c \in DOMAIN Input /\ toks = <<>>
AppendToken == /\ Len(toks) < MaxLen
               /\ Len(toks) < MaxBad \/ (~Sofar.err /\ Hope)
               /\ \E t \in AlphaTab[c] : toks' = Append(toks, Numbered(t, Len(toks) + 1))
               /\ c' = c
Next == AppendToken
Spec == Init /\ [][Next]_<<c, toks>>

Agree ==
  LET ctx == CtxTab[c]  p == Postfix(ctx, toks)  m == Convert(ctx, toks)  v == ValueOf(ctx, p) IN
  /\ m = p                          \* the machine computes the grammar's postfix order, or rejects with it
  /\ Run(ctx, m) = v                \* and running it gives the value
  /\ Emit => LET rpn == [k |-> IF p.ok THEN "ok" ELSE "err", v |-> p.v]  val == [k |-> IF v.ok THEN "ok" ELSE "err", v |-> v.v]
                 rc == RunCalls(ctx, p) IN
             CSVWrite("%1$s", <<IF Calls THEN ToJson([c |-> c, toks |-> toks, rpn |-> rpn, val |-> val, calls |-> rc.calls,
                                                      why |-> IF rc.why = <<>> THEN [k |-> "", kind |-> "", text |-> <<>>] ELSE Why(rc.why)])
                                         ELSE ToJson([c |-> c, toks |-> toks, rpn |-> rpn, val |-> val])>>, OutFile)

(* the stacks of the machine stay consistent *)
Stacks ==
  LET st == Sofar IN
  st.err \/ (/\ Len(st.argc) = Cardinality({k \in DOMAIN st.ops : st.ops[k][1] = "fn"})
             /\ \A k \in DOMAIN st.ops : st.ops[k][1] \in {"open", "fn", "bin", "una"}
             /\ \A k \in DOMAIN st.ops : st.ops[k][1] = "fn" => k = Len(st.ops) \/ st.ops[k + 1][1] = "open")

(* the calls are those of the value, each once and in order; a failing one is the last, and those before it are as if it did not fail *)
CallsAgree ==
  Calls =>
  LET ctx == CtxTab[c]  p == Postfix(ctx, toks)  v == ValueOf(ctx, p)  r == RunCalls(ctx, p)
      never == [ctx EXCEPT !.funcs = {[f EXCEPT !.fails = FALSE] : f \in @}, !.bins = {[f EXCEPT !.fails = FALSE] : f \in @}, !.unas = {[f EXCEPT !.fails = FALSE] : f \in @}]
      all == RunCalls(never, p).calls
      made == SelectSeq(v.v, LAMBDA x: x[1] \in {"f", "b", "u"}) IN
  /\ r.calls = SubSeq(all, 1, Len(r.calls))
  /\ v.ok => /\ r.why = <<>>
             /\ Len(made) = Len(r.calls)
             /\ \A i \in DOMAIN made : made[i][1] = r.calls[i][1] /\ made[i][2] = r.calls[i][2]
             /\ made # <<>> => Top(r.calls)[4] = Pop(v.v)
  /\ r.why # <<>> => ~v.ok /\ Top(r.calls)[2] = r.why
  /\ ~p.ok => r.calls = <<>>
=============================================================================
