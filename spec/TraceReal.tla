----------------------------- MODULE TraceReal -----------------------------
(* Evaluation in the shipped numeric contexts as a function: a history of variable changes and
   evaluations in one long-lived evaluator, next to evaluations in fresh evaluators holding the same
   variables. The specification holds the variables, and what each text has given under them. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Recs == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACE))

VARIABLES l, vars, memo
Init == l = 0 /\ vars = {} /\ memo = {}

Pairs(s) == {<<s[i][1], s[i][2]>> : i \in DOMAIN s}
Known(k) == {m \in memo : m[1] = k}
Bad(what) == PrintT("BAD " \o ToString(l + 1) \o " " \o what)
Learn(k, res) ==
  /\ memo' = memo \cup {<<k, res>>}
  /\ \A m \in Known(k) : m[2] = res \/ Bad("the value was " \o ToString(m[2]) \o " before")
  /\ res.k \in {"ok", "err"} \/ Bad("neither a value nor an error")
Next ==
  /\ l < Len(Recs) /\ l' = l + 1
  /\ LET r == Recs[l + 1] IN
     CASE r.op = "new" -> vars' = {} /\ memo' = {}
     [] r.op = "set" -> /\ memo' = memo
                        /\ vars' = IF r.res = "ok" THEN {v \in vars : v[1] # r.name} \cup {<<r.name, r.v>>} ELSE vars
                        /\ r.res \in {"ok", "err"} \/ Bad("set failed")
     [] r.op = "eval" -> vars' = vars /\ Learn(<<vars, r.text>>, r.res)
     [] r.op = "fresh" -> vars' = vars /\ Learn(<<Pairs(r.set), r.text>>, r.res)
Spec == Init /\ [][Next]_<<l, vars, memo>>
OneValueEach == \A v, w \in vars : v[1] = w[1] => v = w
=============================================================================
