------------------------------ MODULE ReplLines ------------------------------
(* What the lines of given sessions ask for, in order: the questions to put to the library. *)
EXTENDS Repl, CSV
Recs == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACE))
OutFile == IOEnv.VH_OUT
VARIABLES l, k, st
Init == l = 1 /\ k = 0 /\ st = Fresh0(Recs[1].cap)
Next ==
  IF k < Len(Recs[l].keys)
  THEN LET p == Press(st, Recs[l].keys[k + 1]) IN
       /\ k' = k + 1 /\ l' = l /\ st' = p.st
       /\ p.line # <<>> => CSVWrite("%1$s", <<ToJson([i |-> Recs[l].i, k |-> k + 1, ask |-> Asks(Recs[l].mode, p.line[1])])>>, OutFile)
  ELSE l < Len(Recs) /\ l' = l + 1 /\ k' = 0 /\ st' = Fresh0(Recs[l + 1].cap)
Spec == Init /\ [][Next]_<<l, k, st>>
=============================================================================
