------------------------------ MODULE Splitter ------------------------------
(* A splitter built by the caller: a list of rules, tried in order at every character. The first rule
   that begins with the character takes the longest run it can; a character that no rule takes stands
   alone; what a skipping rule takes is dropped. The rules of the crate:
     num   digits with at most one point          id    a letter or `_`, then letters, digits, `_`
     op    the operator characters                set   a chosen set of characters
     bin   `b`, a 0 or 1, digits                  space one whitespace character, dropped
   and two that a caller may write:
     pair  a character of a set and whatever follows it
     drop  one character of a set, dropped *)
EXTENDS Chars, SequencesExt, Integers

(* ---- building: what the calls on the builders make ---- *)
SetOf(r) == FoldLeft(LAMBDA s, o : IF o[1] = "add" THEN s \cup {o[2]} ELSE s \ {o[2]},
                     IF r.base = "empty" THEN {} ELSE OpChar, r.edits)
Rule(r) == [k |-> r.k, cs |-> IF r.k = "set" THEN SetOf(r) ELSE Rng(r.cs)]
Plain(k) == [k |-> k, cs |-> {}]
Usual == <<Plain("num"), Plain("id"), Plain("op")>>
Space(l) == Append(l, Plain("space"))
InsertAfter(l, i, r) == SubSeq(l, 1, i) \o <<r>> \o SubSeq(l, i + 1, Len(l))
Built(b) ==
  CASE b.how = "builder" ->
       LET l == FoldLeft(LAMBDA acc, s : IF s.at < 0 THEN Append(acc, Rule(s.r)) ELSE InsertAfter(acc, s.at, Rule(s.r)), <<>>, b.steps)
       IN IF b.ws = "remove" THEN Space(l) ELSE l
    [] b.how = "new" -> IF b.ws = "remove" THEN Space(Usual) ELSE Usual
    [] b.how = "default" -> Space(Usual)
    [] b.how = "numeric" -> Space(<<Rule(b.steps[1].r), Plain("id"), Plain("op")>>)
    [] b.how = "identifier" -> Space(<<Plain("num"), Rule(b.steps[1].r), Plain("id"), Plain("op")>>)
    [] b.how = "binary" -> Space(<<Plain("bin")>> \o Usual)

(* ---- the machine: one character at a time ---- *)
Drops == {"space", "drop"}
Starts(r, c) ==
  CASE r.k = "num" -> c \in Digit
    [] r.k = "id" -> c \in IdStart
    [] r.k = "op" -> c \in OpChar
    [] r.k = "bin" -> c = "b"
    [] r.k = "space" -> IsSpace(c)
    [] OTHER -> c \in r.cs
Grows(r, run, c) ==
  CASE r.k = "num" -> c \in Digit \/ (c = "." /\ "." \notin Rng(run))
    [] r.k = "id" -> c \in IdPart
    [] r.k = "op" -> c \in OpChar
    [] r.k = "set" -> c \in r.cs
    [] r.k = "bin" -> c \in IF Len(run) = 1 THEN {"0", "1"} ELSE Digit
    [] r.k = "pair" -> Len(run) = 1
    [] OTHER -> FALSE

(* out: the tokens so far; run: the characters held; at: the rule that holds them (0: none, Len + 1: alone) *)
Start == [out |-> <<>>, run |-> <<>>, at |-> 0]
Emit(st) == IF st.at = 0 THEN st.out ELSE Append(st.out, st.run)
FirstFrom(rules, i, c) ==
  LET s == {j \in i..Len(rules) : Starts(rules[j], c)} IN IF s = {} THEN Len(rules) + 1 ELSE CHOOSE j \in s : \A k \in s : j <= k
Begin(rules, out, i, c) ==
  LET j == FirstFrom(rules, i, c) IN
  IF j <= Len(rules) /\ rules[j].k \in Drops THEN [out |-> out, run |-> <<>>, at |-> 0]
  ELSE [out |-> out, run |-> <<c>>, at |-> j]
Held(rules, st) == st.at \in DOMAIN rules
Doubtful(rules, st) == Held(rules, st) /\ rules[st.at].k = "bin" /\ Len(st.run) = 1     \* a `b` that may be nothing of the sort
RECURSIVE Decide(_, _)
Decide(rules, st) == IF Doubtful(rules, st) THEN Decide(rules, Begin(rules, st.out, st.at + 1, st.run[1])) ELSE st
Step(rules, st, c) ==
  IF Held(rules, st) /\ Grows(rules[st.at], st.run, c) THEN [st EXCEPT !.run = Append(@, c)]
  ELSE LET d == Decide(rules, st) IN
       IF Held(rules, d) /\ Grows(rules[d.at], d.run, c) THEN [d EXCEPT !.run = Append(@, c)]
       ELSE Begin(rules, Emit(d), 1, c)
Finish(rules, st) == Emit(Decide(rules, st))
Tokens(rules, text) == Finish(rules, FoldLeft(LAMBDA st, c : Step(rules, st, c), Start, text))

(* ---- the same without the machine: by positions ---- *)
IsRun(r, t) ==
  CASE r.k = "num" -> t[1] \in Digit /\ (\A i \in DOMAIN t : t[i] \in Digit \cup {"."}) /\ Cardinality({i \in DOMAIN t : t[i] = "."}) <= 1
    [] r.k = "id" -> t[1] \in IdStart /\ \A i \in DOMAIN t : t[i] \in IdPart
    [] r.k = "op" -> \A i \in DOMAIN t : t[i] \in OpChar
    [] r.k = "bin" -> Len(t) >= 2 /\ t[1] = "b" /\ t[2] \in {"0", "1"} /\ \A i \in 2..Len(t) : t[i] \in Digit
    [] r.k = "space" -> Len(t) = 1 /\ IsSpace(t[1])
    [] r.k = "set" -> \A i \in DOMAIN t : t[i] \in r.cs
    [] r.k = "pair" -> Len(t) <= 2 /\ t[1] \in r.cs
    [] r.k = "drop" -> Len(t) = 1 /\ t[1] \in r.cs
Longest(r, text, i) ==
  LET s == {n \in 1..(Len(text) - i + 1) : IsRun(r, SubSeq(text, i, i + n - 1))} IN IF s = {} THEN 0 ELSE CHOOSE n \in s : \A m \in s : m <= n
Taker(rules, text, i) ==
  LET s == {j \in DOMAIN rules : Longest(rules[j], text, i) > 0} IN IF s = {} THEN 0 ELSE CHOOSE j \in s : \A k \in s : j <= k
RECURSIVE SplitFrom(_, _, _)
SplitFrom(rules, text, i) ==
  IF i > Len(text) THEN <<>>
  ELSE LET j == Taker(rules, text, i) IN
       IF j = 0 THEN <<<<text[i]>>>> \o SplitFrom(rules, text, i + 1)
       ELSE LET n == Longest(rules[j], text, i) IN
            (IF rules[j].k \in Drops THEN <<>> ELSE <<SubSeq(text, i, i + n - 1)>>) \o SplitFrom(rules, text, i + n)
=============================================================================
