------------------------------ MODULE TraceCli ------------------------------
(* Recorded runs of the program: the arguments; what was written to standard output (without colours; and its lines,
   as first word and rest), whether anything was reported on standard error, the exit code (negative: a signal).
   lib: the library's answer to the expression in the type's context; consts: the library's constants of the type. *)
EXTENDS Cli, Json, IOUtils
Recs == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACE))
VARIABLES l
Init == l = 0
Next == l < Len(Recs) /\ l' = l + 1
Spec == Init /\ [][Next]_l

Count(r, n) == Cardinality({i \in DOMAIN r.lines : r.lines[i][1] = n})
Problem(r) ==
  LET s == ReadAll(Start, r.args) d == Done(s) IN
  (IF r.code \in 0..100 THEN {} ELSE {"crashes"}) \cup
  (IF s.nocolor # {} /\ r.esc THEN {"colours although told not to"} ELSE {}) \cup
  (CASE d = "repl" -> {}
     [] d = "help" -> (IF r.code = 0 THEN {} ELSE {"refuses a call for help"})
     [] d = "usage" -> (IF r.code # 0 /\ r.err /\ r.out = <<>> THEN {} ELSE {"accepts a command line it should refuse"})
     [] d = "eval" ->
          IF r.lib.k = "ok"
          THEN (IF r.out = Append(r.lib.v, "U+000A") THEN {} ELSE {"does not print the value"}) \cup (IF r.code = 0 /\ ~r.err THEN {} ELSE {"reports an error beside a value"})
          ELSE (IF r.out = <<>> THEN {} ELSE {"prints a value for an error"}) \cup (IF r.err THEN {} ELSE {"reports no error"})
     [] OTHER ->
          LET f == Family(TypeOf(s)) IN
          (IF \A n \in Names(f, d) : Count(r, n) = Times(f, d, n) THEN {} ELSE {"does not list every name once"}) \cup
          (IF \A i \in DOMAIN r.lines : r.lines[i][1] \in Names(f, d) THEN {} ELSE {"lists other names"}) \cup
          (IF d = "constants" => \A i \in DOMAIN r.lines : \E j \in DOMAIN r.consts : r.consts[j] = r.lines[i] THEN {} ELSE {"lists a constant with another value"}) \cup
          (IF r.code = 0 /\ ~r.err THEN {} ELSE {"reports an error"}))
Conforms == l = 0 \/ LET p == Problem(Recs[l]) IN p = {} \/ PrintT("BAD " \o ToString(l) \o " " \o ToString(p))
=============================================================================
