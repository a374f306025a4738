------------------------------ MODULE TraceExpr ------------------------------
(* Validation of recorded behaviours: each record holds a context, a text, and what the real
   splitter, tokenizer, conversion and evaluator made of it. The specification computes the same
   from the text alone; a record is accepted when every judged part is as specified.
   One step of the behaviour consumes one record. *)
EXTENDS Shunting, Lexer, Integers

CONSTANT Judge      \* the parts of a record that are judged

RawCtxs == ndJsonDeserialize(IOEnv.VH_CTXS)
Recs == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACE))
Ctxs == TLCEval([i \in DOMAIN RawCtxs |-> Prep(RawCtxs[i])])

VARIABLE l
Init == l = 1
Next == l < Len(Recs) /\ l' = l + 1
Spec == Init /\ [][Next]_l

OkV(o, v) == o.k = "ok" /\ o.v = v
Same(a, b) == a.k = b.k /\ a.v = b.v
Is(o, spec) == IF spec.ok THEN OkV(o, spec.v) ELSE o.k = "err"
NoOk(o) == o.k \in {"err", "none"}
(* the kinds of the names, whatever role an operator plays *)
Role(t) == IF t[1] \in {"una", "bin"} THEN <<"op", t[2], t[3]>> ELSE t

(* Tokens made by the caller instead of a text. *)
GivenFailed(r) ==
  LET ctx == Ctxs[r.c]  pf == Postfix(ctx, r.given)  val == ValueOf(ctx, pf)
      parts == [given |-> Is(r.rpn, pf) /\ Is(r.val, val)]
  IN {p \in DOMAIN parts : ~parts[p]}

Failed(r) ==
  LET ctx == Ctxs[r.c]
      raws == Lex("default", r.text)
      tk == Tokenize(ctx, raws)
      pf == IF tk.ok THEN Postfix(ctx, tk.v) ELSE [ok |-> FALSE, v |-> <<>>]
      val == ValueOf(ctx, pf)
      unk == tk.ok /\ \E i \in DOMAIN tk.v : tk.v[i][1] = "unk"
      parts ==
        [split   |-> OkV(r.raws, raws),
         tokens  |-> pf.ok => OkV(r.toks, tk.v),
         names   |-> tk.ok /\ ~unk => /\ r.toks.k = "ok" /\ Len(r.toks.v) = Len(tk.v)
                                      /\ \A i \in DOMAIN tk.v : Role(r.toks.v[i]) = Role(tk.v[i]),
         value   |-> pf.ok => Is(r.val, val),
         accept  |-> pf.ok => r.toks.k = "ok" /\ r.rpn.k = "ok" /\ (val.ok => r.val.k = "ok" /\ r.tval.k = "ok"),
         reject  |-> /\ ~pf.ok => NoOk(r.rpn)
                     /\ ~val.ok => r.val.k = "err" /\ NoOk(r.tval),
         convert |-> pf.ok => OkV(r.rpn, pf.v),
         stages  |-> /\ r.toks.k = "ok" => Same(r.tval, r.val)
                     /\ r.toks.k # "ok" => r.val.k = "err"
                     /\ r.rpn.k = "err" => r.val.k = "err"
                     /\ \A i \in DOMAIN r.alts : Same(r.alts[i], r.toks)
                     /\ \A i \in DOMAIN r.altvals : Same(r.altvals[i], r.val)]
  IN {p \in Judge : ~parts[p]}

(* The calls of each way to evaluate, and the error it ends with. *)
CallsFailed(r) ==
  LET ctx == Ctxs[r.c]
      text == "text" \in DOMAIN r
      raws == IF text THEN Lex("default", r.text) ELSE <<>>
      tk == IF text THEN Tokenize(ctx, raws) ELSE [ok |-> TRUE, v |-> r.given]
      pf == IF tk.ok THEN Postfix(ctx, tk.v) ELSE [ok |-> FALSE, v |-> <<>>]
      rc == RunCalls(ctx, pf)
      unknown == pf.ok /\ \E i \in DOMAIN pf.v : (pf.v[i][1] = "var" /\ ~IsVar(ctx, pf.v[i][2])) \/ (pf.v[i][1] = "const" /\ ~IsConst(ctx, pf.v[i][2]))
                                              \/ (pf.v[i][1] = "fn" /\ ~IsFn(ctx, pf.v[i][2]))
      \* tokens of the caller may name what is not there: refused at once, or when it is reached
      as(calls) == IF unknown THEN IsPrefix(calls, rc.calls) ELSE calls = rc.calls
      parts == [calls |-> \A i \in DOMAIN r.runs : as(r.runs[i].calls),
                idle  |-> r.idle = 0,
                error |-> /\ rc.why # <<>> /\ ~unknown => \A i \in DOMAIN r.runs : r.runs[i].why = Why(rc.why)
                          /\ text /\ raws = <<>> => r.runs[1].why.k = "err" /\ r.runs[1].why.kind = "Empty"]
  IN {p \in DOMAIN parts : ~parts[p]}

Conforms == LET f == IF "runs" \in DOMAIN Recs[l] THEN CallsFailed(Recs[l]) ELSE
                  IF "given" \in DOMAIN Recs[l] THEN GivenFailed(Recs[l]) ELSE Failed(Recs[l]) IN f = {} \/ PrintT("BAD " \o ToString(l) \o " " \o ToString(f))
=============================================================================
