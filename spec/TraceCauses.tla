----------------------------- MODULE TraceCauses -----------------------------
(* Recorded failures of operations and expressions of the number types. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
INSTANCE Causes
Recs == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACE))
VARIABLES l
Init == l = 0
Next == l < Len(Recs) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Bits == [i8 |-> 8, i16 |-> 16, i32 |-> 32, i64 |-> 64, i128 |-> 128, isize |-> 64, m8 |-> 8, m64 |-> 64, m128 |-> 128]
UBits == [u8 |-> 8, u16 |-> 16, u32 |-> 32, u64 |-> 64, u128 |-> 128, usize |-> 64]
Types == TLCEval([t \in DOMAIN Bits \cup DOMAIN UBits |-> IF t \in DOMAIN Bits THEN Signed(Bits[t]) ELSE Unsigned(UBits[t])])
(* one operation with the outcome's kind and cause, or a program of them *)
Right(r) == IF r.kind = "prog"
            THEN LET e == CauseOfRun(Types[r.ctx], r.prog) IN r.e = e
            ELSE r.k = "err" => r.e = Cause(r.kind, r.o, r.zero, r.neg, 2)
Conforms == l = 0 \/ Right(Recs[l]) \/ PrintT("BAD " \o ToString(l) \o " cause")
=============================================================================
