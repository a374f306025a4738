------------------------------ MODULE TraceFun ------------------------------
(* Recorded values of the functions, judged by RealFun. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
R == INSTANCE RealFun
Recs == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACE))
VARIABLES l
Init == l = 0
Next == l < Len(Recs) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Conforms == l = 0 \/ R!Allowed(Recs[l]) \/ PrintT("BAD " \o ToString(l) \o " not a value of " \o Recs[l].fn)
=============================================================================
