----------------------------- MODULE MCSplitter -----------------------------
(* Every text up to MaxLen over an alphabet under every splitter of a list of builds. The machine agrees
   with the splitting by positions, loses nothing a rule does not drop, and two neighbouring rules that
   never begin alike may change places. Every text is written out with its tokens, to be replayed. *)
EXTENDS Splitter, CSV
CONSTANT MaxLen
OutFile == IOEnv.VH_OUT
Alphabet == Rng(JsonDeserialize(IOEnv.VH_ALPHABET))
Builds == ndJsonDeserialize(IOEnv.VH_BUILDS)
Lists == TLCEval([i \in DOMAIN Builds |-> Built(Builds[i])])

VARIABLES b, text, st
vars == <<b, text, st>>
Init == b \in DOMAIN Lists /\ text = <<>> /\ st = Start
Next == /\ Len(text) < MaxLen
        /\ \E c \in Alphabet : text' = Append(text, c) /\ st' = Step(Lists[b], st, c)
        /\ b' = b
Spec == Init /\ [][Next]_vars

Toks == Finish(Lists[b], st)
ByPosition == Toks = SplitFrom(Lists[b], text, 1)
Dropped(l) == UNION {l[i].cs : i \in {j \in DOMAIN l : l[j].k = "drop"}}
Kept(l, s) == SelectSeq(s, LAMBDA c : ~((\E i \in DOMAIN l : l[i].k = "space") /\ IsSpace(c)) /\ c \notin Dropped(l))
NothingLost == Kept(Lists[b], FlattenSeq(Toks)) = Kept(Lists[b], text)
Apart(r, s) == ~\E c \in Alphabet : Starts(r, c) /\ Starts(s, c)
Swapped(l, i) == SubSeq(l, 1, i - 1) \o <<l[i + 1], l[i]>> \o SubSeq(l, i + 2, Len(l))
OrderOnlyWhereItMatters ==
  Len(text) = MaxLen => \A i \in 1..(Len(Lists[b]) - 1) : Apart(Lists[b][i], Lists[b][i + 1]) => Tokens(Swapped(Lists[b], i), text) = Toks
Emitted == CSVWrite("%1$s", <<ToJson([b |-> b, text |-> text, toks |-> Toks, n |-> Len(Lists[b])])>>, OutFile)
=============================================================================
