------------------------------- MODULE Lexer -------------------------------
(* The splitter as a machine that reads one character at a time: it holds the run it
   is in the middle of and emits it when the next character cannot extend it.
   Modes: "default" (numbers, identifiers, operator runs), "binary" (also `b101`),
   "repl" ($name is one token and `$` is not an operator character),
   "replbin" (both). *)
EXTENDS Chars, SequencesExt

OpCharOf(mode) == IF mode \in {"repl", "replbin"} THEN OpChar \ {"$"} ELSE OpChar

LexInit == [out |-> <<>>, run |-> <<>>, cls |-> "none"]

(* The class of the run that character c begins. *)
Begins(mode, c) ==
  CASE mode \in {"binary", "replbin"} /\ c = "b" -> "b?"      \* `b` followed by 0 or 1 is a binary literal
    [] mode \in {"repl", "replbin"} /\ c = "$" -> "dollar"
    [] c \in Digit          -> "num"
    [] c \in IdStart        -> "id"
    [] c \in OpCharOf(mode) -> "op"
    [] IsSpace(c)           -> "none"
    [] OTHER                -> "one"

(* The class of the run once extended by c, or "end" if c is not part of it. *)
Extends(mode, run, cls, c) ==
  CASE cls = "num"    -> IF c \in Digit \/ (c = "." /\ "." \notin Rng(run)) THEN "num" ELSE "end"
    [] cls = "id"     -> IF c \in IdPart THEN "id" ELSE "end"
    [] cls = "dollar" -> IF c \in IdPart THEN "dollar" ELSE "end"
    [] cls = "op"     -> IF c \in OpCharOf(mode) THEN "op" ELSE "end"
    [] cls = "b?"     -> IF c \in {"0", "1"} THEN "bin" ELSE IF c \in IdPart THEN "id" ELSE "end"
    [] cls = "bin"    -> IF c \in Digit THEN "bin" ELSE "end"
    [] OTHER          -> "end"

Flush(st) == IF st.cls = "none" THEN st.out ELSE Append(st.out, st.run)

LexStep(mode, st, c) ==
  LET e == Extends(mode, st.run, st.cls, c) IN
  IF e # "end"
  THEN [out |-> st.out, run |-> Append(st.run, c), cls |-> e]
  ELSE LET b == Begins(mode, c) IN
       [out |-> Flush(st), run |-> IF b = "none" THEN <<>> ELSE <<c>>, cls |-> b]

Lex(mode, text) == Flush(FoldLeft(LAMBDA st, c: LexStep(mode, st, c), LexInit, text))

-----------------------------------------------------------------------------
(* What the machine must satisfy, stated without it. *)
NoSpace(text) == SelectSeq(text, LAMBDA c: ~IsSpace(c))
Lossless(text, toks) == FlattenSeq(toks) = NoSpace(text)

(* A token is of exactly one lexical class. *)
IsNumTok(t) == /\ t[1] \in Digit /\ \A i \in DOMAIN t: t[i] \in Digit \cup {"."}
               /\ Cardinality({i \in DOMAIN t: t[i] = "."}) <= 1
IsIdTok(t)  == t[1] \in IdStart /\ \A i \in DOMAIN t: t[i] \in IdPart
IsOpTok(t)  == t[1] \notin IdStart /\ \A i \in DOMAIN t: t[i] \in OpChar
IsOneTok(t) == Len(t) = 1 /\ ~IsSpace(t[1])
Classified(toks) == \A i \in DOMAIN toks: toks[i] # <<>> /\ (IsNumTok(toks[i]) \/ IsIdTok(toks[i]) \/ IsOpTok(toks[i]) \/ IsOneTok(toks[i]))

(* Longest runs: where each token ends in the text, the character right after it could not
   have extended it. Ends(text, toks) = the positions, by counting the characters off. *)
RECURSIVE EndsFrom(_, _, _, _)
EndsFrom(text, pos, left, toks) ==
  IF toks = <<>> THEN <<>>
  ELSE IF IsSpace(text[pos]) /\ left = Len(toks[1]) THEN EndsFrom(text, pos + 1, left, toks)
  ELSE IF left > 1 THEN EndsFrom(text, pos + 1, left - 1, toks)
  ELSE <<pos>> \o EndsFrom(text, pos + 1, IF Len(toks) > 1 THEN Len(toks[2]) ELSE 0, Tail(toks))
Ends(text, toks) == IF toks = <<>> THEN <<>> ELSE EndsFrom(text, 1, Len(toks[1]), toks)

CouldGrow(t, c) ==
  \/ IsNumTok(t) /\ (c \in Digit \/ (c = "." /\ "." \notin Rng(t)))
  \/ IsIdTok(t) /\ c \in IdPart
  \/ IsOpTok(t) /\ c \in OpChar
Maximal(text, toks) ==
  LET e == Ends(text, toks) IN
  \A i \in DOMAIN toks: e[i] < Len(text) => ~CouldGrow(toks[i], text[e[i] + 1])
=============================================================================
