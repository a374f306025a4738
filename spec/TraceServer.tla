----------------------------- MODULE TraceServer -----------------------------
(* Recorded requests to the evaluation endpoint, over any number of connections, and what was answered to each.
   asked, lib: the question put to the library, alone, and its answer. *)
EXTENDS Server, Json, IOUtils, TLC
Recs == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACE))
VARIABLES l
Init == l = 0
Next == l < Len(Recs) /\ l' = l + 1
Spec == Init /\ [][Next]_l

SameQuestion(r) == LET a == Asked(r.body) IN r.asked = <<>> \/ (a.type = r.asked[1].type /\ a.text = r.asked[1].text /\ a.set = {r.asked[1].set[i] : i \in DOMAIN r.asked[1].set})
Problem(r) ==
  LET a == Answer(r.body, r.bare, r.lib) g == r.got IN
  (IF g.code = 0 THEN {"is not answered"} ELSE
   IF g.code # a.code THEN {"is answered with the wrong status"} ELSE
   IF g.form # a.form THEN {"is answered in the wrong form"} ELSE
   IF g.form = "text" THEN IF g.text = a.v THEN {} ELSE {"is answered with another value"}
   ELSE (IF a.result = (g.result # <<>>) THEN {} ELSE {"is answered with a result beside what it should be"}) \cup
        (IF a.error = (g.error # <<>>) THEN {} ELSE {"is answered with an error beside what it should be"}) \cup
        (IF a.result /\ g.result # <<>> /\ g.result[1] # a.v THEN {"is answered with another value"} ELSE {}))
Conforms == l = 0 \/ LET r == Recs[l] IN
  /\ Assert(Accepts(r.body) <=> r.asked # <<>>, <<"the driver reads this body otherwise", l>>)
  /\ Accepts(r.body) => Assert(SameQuestion(r), <<"the library was asked something else", l>>)
  /\ LET p == Problem(r) IN p = {} \/ PrintT("BAD " \o ToString(l) \o " " \o ToString(p))
=============================================================================
