----------------------------- MODULE TraceVocab -----------------------------
(* Recorded vocabularies and uses of them. *)
EXTENDS Vocab, Json, IOUtils
Recs == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACE))
VARIABLES l
Init == l = 0
Next == l < Len(Recs) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Rng(s) == {s[i] : i \in DOMAIN s}
Problem(r) ==
  CASE r.kind = "vocab" ->
       (IF Rng(r.consts) = Consts(r.fam) /\ Len(r.consts) = Cardinality(Consts(r.fam)) THEN {} ELSE {"constants"}) \cup
       (IF Rng(r.fns) = Funs(r.fam) /\ Len(r.fns) = Cardinality(Funs(r.fam)) THEN {} ELSE {"functions"}) \cup
       (IF Rng(r.bins) = Bins(r.fam) /\ Len(r.bins) = Cardinality(Bins(r.fam)) THEN {} ELSE {"binary operators"}) \cup
       (IF Rng(r.unas) = Unas(r.fam) /\ Len(r.unas) = Cardinality(Unas(r.fam)) THEN {} ELSE {"unary operators"}) \cup
       (IF r.vars = 0 /\ r.implicit = r.asked /\ r.complex = (r.fam = "complex") /\ ~r.custom THEN {} ELSE {"configuration"}) \cup
       (IF \A i \in DOMAIN r.owns : r.owns[i][2] \in Same(r.fam, r.owns[i][1]) THEN {} ELSE {"own names"})
  [] r.kind = "call" ->      \* [fam, name, n, outs: the outcomes of calls with n arguments]
       IF Takes(r.fam, r.name, r.n)
       THEN (IF \A i \in DOMAIN r.outs : r.outs[i].k \in {"ok", "err"} /\ r.outs[i].e # "InvalidArgumentCount" THEN {} ELSE {"refuses its arguments"}) \cup
            (IF \E i \in DOMAIN r.outs : r.outs[i].k = "ok" THEN {} ELSE {"gives no value at all"})
       ELSE (IF \A i \in DOMAIN r.outs : r.outs[i].k = "err" /\ r.outs[i].e = "InvalidArgumentCount" THEN {} ELSE {"accepts that many arguments"})
  [] r.kind = "same" ->      \* the same use, by the table, by a text, by its other names and spellings
       IF \A i \in DOMAIN r.outs : r.outs[i] = r.outs[1] THEN {} ELSE {"differs by how it is written"}
Conforms == l = 0 \/ LET p == Problem(Recs[l]) IN p = {} \/ PrintT("BAD " \o ToString(l) \o " " \o ToString(p))
=============================================================================
