------------------------------- MODULE MCFold -------------------------------
(* All tables reached by MaxLen operations on words over a tricky alphabet; every history is written
   out to be replayed in the real tables. *)
EXTENDS Fold, CSV
CONSTANTS MaxLen
Menu == JsonDeserialize(IOEnv.VH_MENU)      \* the words
OutFile == IOEnv.VH_OUT
VARIABLES t, hist
Init == t = {} /\ hist = <<>>
Step(k, o) ==
  /\ Len(hist) < MaxLen
  /\ LET w == Menu[k] IN
     /\ t' = CASE o = "insert" -> Insert(t, w, Len(hist)) [] o = "get" -> t [] o = "remove" -> Remove(t, w)
     /\ hist' = Append(hist, [op |-> o, w |-> w, v |-> Len(hist), res |-> Value(t, w), size |-> Cardinality(t')])
Next == \E k \in DOMAIN Menu, o \in {"insert", "get", "remove"} : Step(k, o)
Spec == Init /\ [][Next]_<<t, hist>>
One == OneEach(t)
(* being the same up to case is an equivalence, which appending respects *)
Equivalence == hist = <<>> => \A i, j, k \in DOMAIN Menu :
  LET a == Menu[i] b == Menu[j] d == Menu[k] IN
  /\ SameName(a, a) /\ (SameName(a, b) => SameName(b, a)) /\ (SameName(a, b) /\ SameName(b, d) => SameName(a, d))
  /\ SameName(a, b) => SameName(a \o d, b \o d) /\ SameName(d \o a, d \o b)
Emitted == Len(hist) = MaxLen => CSVWrite("%1$s", <<ToJson([table |-> hist])>>, OutFile)
=============================================================================
