------------------------------- MODULE MCLexer -------------------------------
(* All texts up to MaxLen over Alphabet, read character by character: the runs the machine emits
   lose nothing, are each of one class and as long as they can be; whitespace at a joint changes
   nothing. Every text is written out with its tokens, to be replayed in the real splitters. *)
EXTENDS Lexer, Integers, CSV

CONSTANTS MaxLen, Modes
OutFile == IOEnv.VH_OUT
Alphabet == Rng(JsonDeserialize(IOEnv.VH_ALPHABET))

VARIABLES mode, text, st
vars == <<mode, text, st>>

Init == mode \in Modes /\ text = <<>> /\ st = LexInit
Read == /\ Len(text) < MaxLen
        /\ \E c \in Alphabet : text' = Append(text, c) /\ st' = LexStep(mode, st, c)
        /\ mode' = mode
Next == Read
Spec == Init /\ [][Next]_vars

Toks == Flush(st)
NothingLost == Lossless(text, Toks)
OneClass == mode = "default" => Classified(Toks)
Longest == mode = "default" => Maximal(text, Toks)
(* a space between two tokens changes nothing *)
SpaceIsFree ==
  LET e == Ends(text, Toks) IN
  \A i \in DOMAIN e : Lex(mode, SubSeq(text, 1, e[i]) \o <<" ">> \o SubSeq(text, e[i] + 1, Len(text))) = Toks
(* the machine read left to right is Lex *)
Emitted == /\ Lex(mode, text) = Toks
           /\ CSVWrite("%1$s", <<ToJson([mode |-> mode, text |-> text, toks |-> Toks])>>, OutFile)
=============================================================================
