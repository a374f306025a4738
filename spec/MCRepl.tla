------------------------------- MODULE MCRepl -------------------------------
(* All sessions over a small keyboard: lines of up to MaxLine characters, histories of the sizes Caps.
   Lines: how many submissions are followed (0: any number, without the ghost).
   Every transition is written out, for the tours that drive the real program through all of them. *)
EXTENDS Repl, CSV

CONSTANTS Caps, MaxLine, Lines, Keys
OutFile == IOEnv.VH_OUT
Board == {<<"char", k>> : k \in Keys} \cup {<<k, "">> : k \in {"enter", "up", "down", "back", "left"}}

VARIABLES st, lines
Init == st \in {Fresh0(c) : c \in Caps} /\ lines = <<>>
Type(key) ==
  LET p == Press(st, key) IN
  /\ key[1] = "char" => Len(st.buf) < MaxLine
  /\ Lines > 0 => Len(lines) < Lines
  /\ st' = p.st
  /\ lines' = IF Lines > 0 THEN lines \o p.line ELSE lines
  /\ Lines = 0 => CSVWrite("%1$s", <<ToJson([f |-> st, k |-> key, t |-> p.st])>>, OutFile)
Next == \E key \in Board : Type(key)
Spec == Init /\ [][Next]_<<st, lines>>

Bounded == /\ st.cur \in 0..Len(st.hist) /\ Len(st.hist) <= st.cap
           /\ \A i \in DOMAIN st.hist : Trim(st.hist[i]) # <<>> /\ (i > 1 => st.hist[i] # st.hist[i - 1])
History == Lines > 0 => st.hist = Kept(st.cap, lines)
(* going up and down again ends where it began, but for what was being edited *)
UpDown == LET u == Press(st, <<"up", "">>).st d == Press(u, <<"down", "">>).st IN st.cur > 0 => d.cur = st.cur /\ d.hist = st.hist
(* as many Ups as there are lines recall the oldest, whatever went before *)
RECURSIVE Times(_, _, _)
Times(s, key, n) == IF n = 0 THEN s ELSE Times(Press(s, key).st, key, n - 1)
Oldest == st.live /\ st.hist # <<>> /\ st.cur > 0 => Times(st, <<"up", "">>, st.cap + 1).buf = st.hist[1]
=============================================================================
