-------------------------------- MODULE Repl --------------------------------
(* An interactive session as a machine over key presses. A key is <<kind, char>>: "char" with the
   character typed, enter, up, down, back, esc, int (Ctrl-C), or one that does nothing.
   buf: the line being edited; hist: the lines kept, oldest first; cur: how many of them are
   before the one recalled (Len(hist): none is). *)
EXTENDS Lexer, Integers

Fresh0(cap) == [cap |-> cap, buf |-> <<>>, hist |-> <<>>, cur |-> 0, live |-> TRUE]

RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ IsSpace(s[1]) THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s # <<>> /\ IsSpace(s[Len(s)]) THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimR(TrimL(s))

Exit == <<"e", "x", "i", "t">>
Result == <<"$", "r", "e", "s", "u", "l", "t">>

(* What a submitted line asks for. mode: how its expressions are split into tokens. *)
Asks(mode, line) ==
  LET t == Trim(line)
      eqs == {i \in DOMAIN t : t[i] = "="} IN
  IF t = Exit THEN [do |-> "exit", name |-> <<>>, arg |-> <<>>]
  ELSE IF eqs = {} THEN [do |-> "eval", name |-> <<>>, arg |-> Lex(mode, t)]
  ELSE IF Cardinality(eqs) > 1 THEN [do |-> "bad", name |-> <<>>, arg |-> <<>>]
  ELSE LET q == CHOOSE i \in eqs : TRUE IN
       [do |-> "set", name |-> Trim(SubSeq(t, 1, q - 1)), arg |-> Trim(SubSeq(t, q + 1, Len(t)))]

(* the history keeps a line that is not blank and not the one before it again; at most cap of them *)
Keep(st, line) ==
  IF Trim(line) = <<>> THEN st
  ELSE LET again == st.hist # <<>> /\ st.hist[Len(st.hist)] = line
           h == IF again THEN st.hist ELSE Append(st.hist, line)
           k == IF Len(h) > st.cap THEN SubSeq(h, Len(h) - st.cap + 1, Len(h)) ELSE h
       IN [st EXCEPT !.hist = k, !.cur = Len(k)]

(* One key: the new state, what the terminal shows for it (before the answer to a line), and the line submitted, if one is. *)
Press(st, key) ==
  LET same == [st |-> st, out |-> <<>>, line |-> <<>>]
      recall(c) == LET b == IF c = Len(st.hist) THEN <<>> ELSE st.hist[c + 1] IN
                   [st |-> [st EXCEPT !.cur = c, !.buf = b], out |-> <<"REWRITE">> \o b, line |-> <<>>] IN
  IF ~st.live THEN same
  ELSE CASE key[1] = "char"  -> [st |-> [st EXCEPT !.buf = Append(@, key[2])], out |-> <<key[2]>>, line |-> <<>>]
         [] key[1] = "back"  -> IF st.buf = <<>> THEN same
                                ELSE [st |-> [st EXCEPT !.buf = SubSeq(@, 1, Len(@) - 1)], out |-> <<"BACK">>, line |-> <<>>]
         [] key[1] = "up"    -> IF st.cur = 0 THEN same ELSE recall(st.cur - 1)
         [] key[1] = "down"  -> IF st.cur = Len(st.hist) THEN same ELSE recall(st.cur + 1)
         [] key[1] \in {"esc", "int"} -> [st |-> [st EXCEPT !.live = FALSE], out |-> <<>>, line |-> <<>>]
         [] key[1] = "enter" ->
              LET s == [st EXCEPT !.buf = <<>>] IN
              [st |-> IF Trim(st.buf) = Exit THEN [s EXCEPT !.live = FALSE] ELSE Keep(s, st.buf), out |-> <<"NL">>, line |-> <<st.buf>>]
         [] OTHER -> same

-----------------------------------------------------------------------------
(* Stated without the machine: the lines kept are the last cap of those submitted, without blanks and repeats in a row. *)
RECURSIVE NoRepeats(_)
NoRepeats(s) == IF Len(s) < 2 THEN s ELSE IF s[1] = s[2] THEN NoRepeats(Tail(s)) ELSE <<s[1]>> \o NoRepeats(Tail(s))
Kept(cap, lines) == LET d == NoRepeats(SelectSeq(lines, LAMBDA l: Trim(l) # <<>>)) IN SubSeq(d, IF Len(d) > cap THEN Len(d) - cap + 1 ELSE 1, Len(d))
=============================================================================
