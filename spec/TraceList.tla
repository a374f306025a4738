------------------------------ MODULE TraceList ------------------------------
(* Recorded answers of the listing endpoints: kind, type ("" when none was given), code, the entries received,
   <<name, aliases, description>> or <<name, value>>; reg: what the library registers for each type and kind. *)
EXTENDS Cli, Json, IOUtils
Recs == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACE))
Reg == Recs[1].reg
VARIABLES l
Init == l = 1
Next == l < Len(Recs) /\ l' = l + 1
Spec == Init /\ [][Next]_l

Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])
TypeAsked(r) == IF r.type = "" THEN "decimal" ELSE r.type
Served(t) == IF t = "float" THEN "checked" ELSE Family(t)          \* the server takes checked floats
(* The published crate has two older names among the checked functions. *)
Served1(t, n) == IF t \in {"float", "integer"} THEN CASE n = "sign" -> "signum" [] n = "truncate" -> "trunc" [] OTHER -> n ELSE n
Expected(t, k) == {Served1(t, n) : n \in Names(Served(t), k)}
Problem(r) ==
  IF r.code # 200 THEN {"is not answered"}
  ELSE LET t == TypeAsked(r) IN
       (IF SameBag(r.got, Reg[t][r.kind]) THEN {} ELSE {"differs from what is registered for the type"}) \cup
       (IF {r.got[i][1] : i \in DOMAIN r.got} = Expected(t, r.kind) THEN {} ELSE {"does not list the names of the type"})
Conforms == l = 1 \/ LET p == Problem(Recs[l]) IN p = {} \/ PrintT("BAD " \o ToString(l) \o " " \o ToString(p))
=============================================================================
