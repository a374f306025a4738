------------------------------- MODULE MCRaws -------------------------------
(* Every text of up to MaxLen raw tokens over the alphabet of a context: what it means from the
   text on, to be replayed in the real evaluator. A sequence that is already wrong is only
   extended up to MaxBad raw tokens. *)
EXTENDS Shunting, Lexer, Integers, CSV

CONSTANTS MaxLen, MaxBad

Input == ndJsonDeserialize(IOEnv.VH_CTXS)     \* [ctx |-> context, raws |-> alphabet]
OutFile == IOEnv.VH_OUT
CtxTab == TLCEval([i \in DOMAIN Input |-> Prep(Input[i].ctx)])
AlphaTab == TLCEval([i \in DOMAIN Input |-> Rng(Input[i].raws)])

VARIABLES c, raws

(* the tokens so far are certain up to the last but one *)
Dead ==
  LET tk == Tokenize(CtxTab[c], Append(raws, <<"(">>)) IN
  ~tk.ok \/ FoldLeft(LAMBDA st, i: Step(CtxTab[c], tk.v, i, st), Sh0, [i \in 1..(Len(tk.v) - 2) |-> i]).err

(* the groups open can still be closed *)
Count(S) == Cardinality({i \in DOMAIN raws : Len(raws[i]) = 1 /\ raws[i][1] \in S})
Hope == Len(raws) + Count(Open) - Count(Close) <= MaxLen

(* the raw token # stands for a number that tells its position *)
Init == c \in DOMAIN Input /\ raws = <<>>
AppendRaw == /\ Len(raws) < MaxLen
             /\ Len(raws) < MaxBad \/ (~Dead /\ Hope)
             /\ \E t \in AlphaTab[c] : raws' = Append(raws, IF t = <<"#">> THEN <<ToString(Len(raws) + 1)>> ELSE t)
             /\ c' = c
Next == AppendRaw
Spec == Init /\ [][Next]_<<c, raws>>

Text == FlattenSeq([i \in DOMAIN raws |-> IF i = 1 THEN raws[i] ELSE <<" ">> \o raws[i]])
K(x) == [k |-> IF x.ok THEN "ok" ELSE "err", v |-> x.v]
Emitted ==
  LET ctx == CtxTab[c]
      tk == Tokenize(ctx, raws)
      p == IF tk.ok THEN Postfix(ctx, tk.v) ELSE [ok |-> FALSE, v |-> <<>>]
      v == ValueOf(ctx, p) IN
  /\ Lex("default", Text) = raws
  /\ p.ok => Convert(ctx, tk.v) = p
  /\ CSVWrite("%1$s", <<ToJson([c |-> c, text |-> Text, rpn |-> K(p), val |-> K(v)])>>, OutFile)
=============================================================================
