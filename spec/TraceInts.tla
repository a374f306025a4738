----------------------------- MODULE TraceInts -----------------------------
(* Recorded results of integer operations. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
INSTANCE Ints
Recs == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACE))
VARIABLES l
Init == l = 0
Next == l < Len(Recs) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Bits == [i8 |-> 8, i16 |-> 16, i32 |-> 32, i64 |-> 64, i128 |-> 128, isize |-> 64, m8 |-> 8, m64 |-> 64, m128 |-> 128, ui64 |-> 64, um64 |-> 64]
UBits == [u8 |-> 8, u16 |-> 16, u32 |-> 32, u64 |-> 64, u128 |-> 128, usize |-> 64]
Types == TLCEval([t \in DOMAIN Bits \cup DOMAIN UBits |-> IF t \in DOMAIN Bits THEN Signed(Bits[t]) ELSE Unsigned(UBits[t])])
(* where the arithmetic is unchecked only the results that fit are promised *)
Lax(r) == r.ctx \in {"ui64", "um64"} \/ r.plain
Same(r, want, got) == got = want \/ (Lax(r) /\ want.k = "err" /\ got.k \in {"ok", "err", "panic"})
Want(r, as) == CASE r.kind = "bin" -> Bin(Types[r.ctx], r.o, as[1], as[2])
               [] r.kind = "una" -> Una(Types[r.ctx], r.o, as[1])
               [] r.kind = "fn" -> Fun(Types[r.ctx], r.o, as)
               [] r.kind = "prog" -> Run(Types[r.ctx], as)
Wrong(r) == {i \in DOMAIN r.args : ~Same(r, Want(r, r.args[i]), r.outs[i])}
Conforms == l = 0 \/ LET w == Wrong(Recs[l]) IN w = {} \/
  LET i == CHOOSE i \in w : \A j \in w : i <= j IN PrintT("BAD " \o ToString(l) \o " " \o ToString(i - 1))
=============================================================================
