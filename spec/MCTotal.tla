------------------------------ MODULE MCTotal ------------------------------
(* Every text of at most MaxLen tokens of an alphabet: the evaluator is a machine that reads a text
   and answers. Each state is a text read so far; `out` is what may be answered: a value or an error,
   and never nothing. The texts are written out, to be evaluated by the code. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, CSV
CONSTANTS MaxLen
Menu == JsonDeserialize(IOEnv.VH_MENU)
OutFile == IOEnv.VH_OUT
VARIABLES text, last, phase
vars == <<text, last, phase>>
Answers == {"ok", "err"}
Init == text = <<>> /\ last = "ok" /\ phase = "reading"
Read == phase = "reading" /\ Len(text) < MaxLen /\ \E k \in DOMAIN Menu : text' = Append(text, k) /\ UNCHANGED <<last, phase>>
Answer == phase = "reading" /\ \E a \in Answers : last' = a /\ phase' = "answered" /\ UNCHANGED text
Next == Read \/ Answer
Spec == Init /\ [][Next]_vars /\ WF_vars(Answer)
AlwaysAnswered == <>(phase = "answered")
OneAnswer == phase = "answered" => last \in Answers
Emitted == phase = "reading" => CSVWrite("%1$s", <<ToJson(text)>>, OutFile)
=============================================================================
