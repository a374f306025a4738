----------------------------- MODULE TraceDec -----------------------------
(* Recorded results of decimal operations. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
LOCAL G == INSTANCE Big WITH Base <- 10000
Max96 == G!NSub(G!NPow(<<2>>, 96), <<1>>)
INSTANCE Dec WITH MaxM <- Max96, MaxE <- 28
Recs == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACE))
VARIABLES l
Init == l = 0
Next == l < Len(Recs) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Want(r, as) == CASE r.kind = "bin" -> Bin(r.o, as[1], as[2])
               [] r.kind = "una" -> Una(r.o, as[1])
               [] r.kind = "fn" -> Fun(r.o, as)
               [] r.kind = "pow" -> Power(as[1], r.n)
               [] r.kind = "prog" -> Run(as)
Slack(r) == IF r.kind = "pow" THEN 2 + (IF r.n < 0 THEN -2 * r.n ELSE 2 * r.n) ELSE 1
Wrong(r) == {i \in DOMAIN r.args : ~Allowed(Want(r, r.args[i]), r.outs[i], Slack(r))}
Conforms == l = 0 \/ LET w == Wrong(Recs[l]) IN w = {} \/
  LET i == CHOOSE i \in w : \A j \in w : i <= j x == Want(Recs[l], Recs[l].args[i]) IN PrintT("BAD " \o ToString(l) \o " " \o ToString(i - 1) \o " " \o x.k \o " " \o ToString(x.v))
=============================================================================
