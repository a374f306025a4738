----------------------------- MODULE TraceBits -----------------------------
(* Recorded literals and expressions of the binary context. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
W == 128
INSTANCE Bits
Recs == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACE))
VARIABLES l
Init == l = 0
Next == l < Len(Recs) /\ l' = l + 1
Spec == Init /\ [][Next]_l
(* [k, v: what is displayed, d: the value in decimal] *)
Same(want, got) == IF want.k = "ok" THEN got.k = "ok" /\ got.v = Shown(want.v) /\ SignedLit(got.d) = want ELSE got.k = "err"
Conforms == l = 0 \/ LET r == Recs[l] want == Value(r.e) IN Same(want, r.out) \/ PrintT("BAD " \o ToString(l) \o " " \o ToString(want.k) \o " " \o ToString(IF want.k = "ok" THEN Shown(want.v) ELSE <<>>))
=============================================================================
