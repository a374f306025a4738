----------------------------- MODULE TraceTotal -----------------------------
(* Recorded evaluations: every text of a batch was answered by a value or an error, in time. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANTS MaxMs
Recs == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACE))
VARIABLES l, answered
Init == l = 0 /\ answered = 0
Bad(what) == PrintT("BAD " \o ToString(l + 1) \o " " \o what)
Sum(f) == LET RECURSIVE S(_)
              S(i) == IF i > Len(f) THEN 0 ELSE f[i][2] + S(i + 1)
          IN S(1)
Next ==
  /\ l < Len(Recs) /\ l' = l + 1
  /\ LET r == Recs[l + 1] IN     \* [ctx, n, kinds: how many texts were answered how, ms: the slowest]
     /\ answered' = answered + Sum(r.kinds)
     /\ \A i \in DOMAIN r.kinds : r.kinds[i][1] \in {"ok", "err"} \/ Bad("answered by " \o r.kinds[i][1])
     /\ Sum(r.kinds) = r.n \/ Bad("texts without an answer")
     /\ r.ms <= MaxMs \/ Bad("took " \o ToString(r.ms) \o " ms")
Spec == Init /\ [][Next]_<<l, answered>>
Conforms == TRUE
=============================================================================
