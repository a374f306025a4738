------------------------------ MODULE TraceRepl ------------------------------
(* Recorded sessions: the keys pressed, what the terminal showed, how many errors were reported, and how the
   process ended; with the library's answers to the lines, each with the variables it was asked under. *)
EXTENDS Repl
Recs == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACE))
VARIABLES l, k, st, p, j, errs, vars, off
vs == <<l, k, st, p, j, errs, vars, off>>

Begin(i) == /\ l' = i /\ k' = 0 /\ p' = 0 /\ j' = 0 /\ errs' = 0 /\ off' = FALSE
            /\ IF i <= Len(Recs) THEN st' = Fresh0(Recs[i].cap) /\ vars' = {<<Result, Recs[i].zero>>} ELSE st' = st /\ vars' = {}
Init == /\ l = 1 /\ k = 0 /\ p = 0 /\ j = 0 /\ errs = 0 /\ off = FALSE
        /\ st = Fresh0(Recs[1].cap) /\ vars = {<<Result, Recs[1].zero>>}
Bad(what) == PrintT("BAD " \o ToString(l) \o " " \o what)

Bind(name, v) == {x \in vars : x[1] # name} \cup {<<name, v>>}

(* The answer to a line: what is shown, whether an error is reported, and the variables afterwards. *)
Answer(ask, lib) ==
  CASE ask.do = "exit" -> [out |-> <<>>, err |-> 0, vars |-> vars]
    [] ask.do = "bad"  -> [out |-> <<>>, err |-> 1, vars |-> vars]
    [] ask.do = "set"  -> IF lib.k = "ok" THEN [out |-> <<>>, err |-> 0, vars |-> Bind(ask.name, lib.v)]
                          ELSE [out |-> <<>>, err |-> 1, vars |-> vars]
    [] ask.do = "eval" -> IF lib.k = "ok" THEN [out |-> Append(lib.v, "NL"), err |-> 0, vars |-> Bind(Result, lib.v)]
                          ELSE [out |-> <<>>, err |-> 1, vars |-> vars]

Key1(r) ==
  LET x == Press(st, r.keys[k + 1])
      ask == IF x.line = <<>> THEN <<>> ELSE <<Asks(r.mode, x.line[1])>>
      asked == ask # <<>> /\ ask[1].do \in {"set", "eval"}
      lib == IF asked THEN r.lib[j + 1] ELSE [k |-> "none", v |-> <<>>, vars |-> <<>>]
      a == IF ask = <<>> THEN [out |-> <<>>, err |-> 0, vars |-> vars] ELSE Answer(ask[1], lib)
      exp == x.out \o a.out
      got == IF p + Len(exp) > Len(r.out) THEN <<"ends">> ELSE SubSeq(r.out, p + 1, p + Len(exp))
  IN /\ l' = l /\ k' = k + 1 /\ st' = x.st /\ p' = p + Len(exp) /\ j' = IF asked THEN j + 1 ELSE j
     /\ errs' = errs + a.err /\ vars' = a.vars
     /\ off' = (exp # got \/ (asked /\ Rng(lib.vars) # vars))
     /\ asked /\ Rng(lib.vars) # vars => Bad("key " \o ToString(k + 1) \o ": the reference has other variables")   \* the oracle was asked something else
     /\ exp # got => Bad("key " \o ToString(k + 1) \o " " \o ToString(r.keys[k + 1]) \o ": specified " \o ToString(exp) \o ", shown " \o ToString(got))

(* a session that is over shows its farewell; one that is not ended by a key waits for more *)
Ending(r) ==
  /\ \/ r.ended = ~st.live
     \/ Bad(IF st.live THEN "the session ended by itself" ELSE "the session did not end")
  /\ \/ st.live => Len(r.out) = p
     \/ Bad("shown after the last key: " \o ToString(SubSeq(r.out, p + 1, Len(r.out))))
  /\ \/ r.errs = errs
     \/ Bad(ToString(errs) \o " lines fail, " \o ToString(r.errs) \o " errors reported")
  /\ \/ ~r.ended \/ r.code = 0
     \/ Bad("the process ended with code " \o ToString(r.code))

Next ==
  /\ l <= Len(Recs)
  /\ LET r == Recs[l] IN
     IF off THEN Begin(l + 1)
     ELSE IF k < Len(r.keys) /\ st.live THEN Key1(r)
     ELSE TRUE = Ending(r) /\ Begin(l + 1)
Spec == Init /\ [][Next]_vs
Conforms == TRUE
=============================================================================
