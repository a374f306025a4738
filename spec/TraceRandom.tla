----------------------------- MODULE TraceRandom -----------------------------
(* Recorded draws: [args, real (no imaginary part in a bound), one, least, outs: Seq([k, v])]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
R == INSTANCE Random
Recs == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACE))
VARIABLES l
Init == l = 0
Next == l < Len(Recs) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Why(r) ==
  IF R!Refused(r.args, r.real) THEN (IF \A i \in DOMAIN r.outs : r.outs[i].k = "err" THEN "" ELSE "a range that must be refused is not")
  ELSE IF \E i \in DOMAIN r.outs : r.outs[i].k # "ok" THEN "a draw of a valid range is no number"
  ELSE IF \E i \in DOMAIN r.outs : \E j \in DOMAIN r.outs[i].v : ~R!Inside(r.outs[i].v[j], r.args, r.one) THEN "a draw leaves the range"
  ELSE IF Len(r.outs) >= 100 /\ R!Wide(r.args, r.one, r.least)
          /\ \E j \in DOMAIN r.outs[1].v : Cardinality({R!Quarter(r.outs[i].v[j], r.args, r.one) : i \in DOMAIN r.outs}) < 4 THEN "a part of the range is never drawn"
  ELSE ""
Conforms == l = 0 \/ LET w == Why(Recs[l]) IN w = "" \/ PrintT("BAD " \o ToString(l) \o " " \o w)
=============================================================================
