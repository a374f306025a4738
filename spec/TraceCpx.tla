----------------------------- MODULE TraceCpx -----------------------------
(* Recorded results of complex expressions. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
INSTANCE Cpx
Recs == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACE))
VARIABLES l
Init == l = 0
Next == l < Len(Recs) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Conforms == l = 0 \/ LET r == Recs[l] want == Run(r.prog) IN Allowed(want, r.out) \/ PrintT("BAD " \o ToString(l) \o " " \o want.k \o " " \o ToString(want.v))
=============================================================================
