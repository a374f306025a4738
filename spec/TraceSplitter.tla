---------------------------- MODULE TraceSplitter ----------------------------
(* Recorded texts with the tokens a built splitter gave: b the build, text, n its number of rules, got. *)
EXTENDS Splitter
Builds == ndJsonDeserialize(IOEnv.VH_BUILDS)
Lists == TLCEval([i \in DOMAIN Builds |-> Built(Builds[i])])
Recs == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACE))
VARIABLE l
Init == l = 1
Next == l < Len(Recs) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Problem(r) ==
  IF r.k # "ok" THEN {"ends in a panic"}
  ELSE (IF r.n = Len(Lists[r.b]) THEN {} ELSE {"has another number of rules"}) \cup (IF r.got = Tokens(Lists[r.b], r.text) THEN {} ELSE {"splits otherwise"})
Conforms == LET p == Problem(Recs[l]) IN p = {} \/ PrintT("BAD " \o ToString(l) \o " " \o ToString(p))
=============================================================================
