---------------------------- MODULE TraceContext ----------------------------
(* Validation of recorded histories: each record is one operation on one of the contexts of a
   history, with its result and the contents of all contexts after it. *)
EXTENDS Context, Integers

Recs == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACE))

VARIABLES l, world
vars == <<l, world>>
Init == l = 0 /\ world = <<>>

Pairs(s) == {<<s[i][1], s[i][2]>> : i \in DOMAIN s}
KeyPairs(s) == {<<Key(s[i][1]), s[i][2]>> : i \in DOMAIN s}
(* the recorded contents d are those of st, each entry once *)
Shows(d, st) ==
  /\ Pairs(d.vars) = st.vars /\ Len(d.vars) = Cardinality(st.vars)
  /\ KeyPairs(d.consts) = st.consts /\ Len(d.consts) = Cardinality(st.consts)
  /\ KeyPairs(d.fns) = {<<f.key, f.id>> : f \in st.fns} /\ Len(d.fns) = Cardinality(st.fns)
  /\ KeyPairs(d.unas) = {<<f.key, f.id>> : f \in st.unas} /\ Len(d.unas) = Cardinality(st.unas)
  /\ KeyPairs(d.bins) = {<<f.key, f.id>> : f \in st.bins} /\ Len(d.bins) = Cardinality(st.bins)

Next ==
  /\ l < Len(Recs)
  /\ l' = l + 1
  /\ LET r == Recs[l + 1]
         a == IF r.op = "new" THEN [res |-> Ok(<<>>), world |-> <<Fresh(r.cfg)>>] ELSE Apply(world, r)
         okres == a.res.k = r.res.k /\ (a.res.k = "ok" => a.res.v = r.res.v)
         okafter == Len(r.after) = Len(a.world) /\ \A i \in DOMAIN r.after : Shows(r.after[i], a.world[i])
     IN /\ world' = a.world
        /\ okres \/ PrintT("BAD " \o ToString(l + 1) \o " result of " \o r.op \o ": " \o ToString(a.res))
        /\ okafter \/ PrintT("BAD " \o ToString(l + 1) \o " contents after " \o r.op)
Spec == Init /\ [][Next]_vars

Sound == \A i \in DOMAIN world : NeverBoth(world[i]) /\ OneEach(world[i])
=============================================================================
