------------------------------- MODULE Tokens -------------------------------
(* Contexts, and the meaning of the raw tokens of a text in a context.
   A token is <<kind, name, n>>: kinds num var const fn bin una open close comma unk argc;
   n is only used by argc. *)
EXTENDS Chars, SequencesExt

(* A context as recorded: sequences of names and definitions. Prep adds the keys. *)
KeysOf(d) == {Key(d.name)} \cup {Key(d.aliases[i]) : i \in DOMAIN d.aliases}
Prep(c) ==
  [implicit |-> c.implicit, complex |-> c.complex, custom |-> c.custom,
   vars   |-> Rng(c.vars),
   consts |-> {<<Key(c.consts[i]), c.consts[i]>> : i \in DOMAIN c.consts},
   funcs  |-> {[keys |-> KeysOf(c.funcs[i]), id |-> c.funcs[i].id, fails |-> c.funcs[i].fails] : i \in DOMAIN c.funcs},
   bins   |-> {[keys |-> KeysOf(c.bins[i]), id |-> c.bins[i].id, prec |-> c.bins[i].prec, left |-> c.bins[i].left, fails |-> c.bins[i].fails] : i \in DOMAIN c.bins},
   unas   |-> {[keys |-> KeysOf(c.unas[i]), id |-> c.unas[i].id, prefix |-> c.unas[i].prefix, fails |-> c.unas[i].fails] : i \in DOMAIN c.unas}]

Find(defs, name) == LET k == Key(name) IN {d \in defs : k \in d.keys}
IsVar(ctx, n)   == n \in ctx.vars
IsConst(ctx, n) == LET k == Key(n) IN \E c \in ctx.consts : c[1] = k
IsFn(ctx, n)    == Find(ctx.funcs, n) # {}
IsBin(ctx, n)   == Find(ctx.bins, n) # {}
IsUna(ctx, n)   == Find(ctx.unas, n) # {}
The(S)          == CHOOSE x \in S : TRUE
BinOf(ctx, n)   == The(Find(ctx.bins, n))
UnaOf(ctx, n)   == The(Find(ctx.unas, n))
FnOf(ctx, n)    == The(Find(ctx.funcs, n))
ConstOf(ctx, n) == LET k == Key(n) IN The({c \in ctx.consts : c[1] = k})[2]
IsPrefixOp(ctx, n)  == IsUna(ctx, n) /\ UnaOf(ctx, n).prefix
IsPostfixOp(ctx, n) == IsUna(ctx, n) /\ ~UnaOf(ctx, n).prefix

(* What the symbolic number type reads as a number. *)
IsReal(t) == /\ t # <<>> /\ t[1] \in Digit /\ Rng(t) \subseteq Digit \cup {"."}
             /\ Cardinality({i \in DOMAIN t : t[i] = "."}) <= 1
IsNumber(ctx, t) ==
  \/ IsReal(t)
  \/ /\ ctx.complex /\ t # <<>> /\ t[Len(t)] = "i"
     /\ (Len(t) = 1 \/ IsReal(SubSeq(t, 1, Len(t) - 1)))

(* An operand ends with the raw token t. *)
EndsOperandRaw(ctx, t) ==
  \/ IsNumber(ctx, t) \/ IsVar(ctx, t) \/ IsConst(ctx, t)
  \/ Len(t) = 1 /\ t[1] \in Close
  \/ IsPostfixOp(ctx, t)

(* One raw token, given the one before (<<>> if none) and whether it is the last. *)
TokenOf(ctx, prev, t, last) ==
  CASE IsNumber(ctx, t) -> <<"num", t, 0>>
    [] IsVar(ctx, t)    -> <<"var", t, 0>>
    [] IsConst(ctx, t)  -> <<"const", t, 0>>
    [] IsFn(ctx, t)     -> <<"fn", t, 0>>
    [] IsBin(ctx, t) \/ IsUna(ctx, t) ->
         LET after == prev # <<>> /\ EndsOperandRaw(ctx, prev) IN
         IF \/ IsPostfixOp(ctx, t) /\ after
            \/ IsPrefixOp(ctx, t) /\ ~after /\ ~last
         THEN <<"una", t, 0>>
         ELSE IF prev = <<>> \/ last THEN <<"error", t, 0>>
         ELSE <<"bin", t, 0>>
    [] t = <<",">>      -> <<"comma", t, 0>>
    [] Len(t) = 1 /\ t[1] \in Open  -> <<"open", t, 0>>
    [] Len(t) = 1 /\ t[1] \in Close -> <<"close", t, 0>>
    [] OTHER            -> <<"unk", t, 0>>

(* All of them, left to right. In complex mode a number directly followed by the raw token
   `i` is one literal; if the two do not make a number, that is an error. *)
Tokenize(ctx, raws) ==
  LET step(st, k) ==
        IF st.skip \/ st.err THEN [st EXCEPT !.skip = FALSE]
        ELSE IF ctx.complex /\ k < Len(raws) /\ raws[k + 1] = <<"i">> /\ IsNumber(ctx, raws[k])
        THEN LET m == raws[k] \o <<"i">> IN
             IF IsNumber(ctx, m) THEN [toks |-> Append(st.toks, <<"num", m, 0>>), skip |-> TRUE, err |-> FALSE]
             ELSE [st EXCEPT !.err = TRUE]
        ELSE LET t == TokenOf(ctx, IF k = 1 THEN <<>> ELSE raws[k - 1], raws[k], k = Len(raws)) IN
             IF t[1] = "error" THEN [st EXCEPT !.err = TRUE]
             ELSE [st EXCEPT !.toks = Append(st.toks, t)]
      r == FoldLeft(step, [toks |-> <<>>, skip |-> FALSE, err |-> raws = <<>>], [k \in DOMAIN raws |-> k])
  IN [ok |-> ~r.err, v |-> IF r.err THEN <<>> ELSE r.toks]
=============================================================================
