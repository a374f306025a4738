-------------------------------- MODULE Cli --------------------------------
(* The command line program: what its arguments ask for, and what it answers (the interactive session: Repl).
   An argument is <<class, text>>: class "opt" (an option or a separator) or "word". *)
EXTENDS Vocab

Commands == {"eval", "constants", "operators", "functions"}
Types == {"decimal", "float", "integer", "complex", "binary"}
Family(t) == CASE t = "decimal" -> "decimal" [] t = "float" -> "unchecked" [] t = "integer" -> "checked" [] t = "complex" -> "complex" [] OTHER -> "binary"

(* The arguments, read one by one. end: what ended the reading early ("usage": refused, "help": asked for help). *)
Start == [cmd |-> "", type |-> "", nocolor |-> {}, expr |-> <<>>, raw |-> FALSE, want |-> FALSE, bad |-> FALSE, end |-> ""]
Level(s) == IF s.cmd = "" THEN "top" ELSE "sub"
Refuse(s) == [s EXCEPT !.end = "usage"]

Typed(s, t) == [s EXCEPT !.want = FALSE, !.bad = s.bad \/ s.type # "" \/ t \notin Types, !.type = t]
Word(s, w) ==
  IF s.cmd = "" THEN IF s.raw THEN Refuse(s) ELSE IF w \in Commands \cup {"repl"} THEN [s EXCEPT !.cmd = w] ELSE Refuse(s)
  ELSE IF s.cmd = "eval" /\ s.expr = <<>> THEN [s EXCEPT !.expr = <<w>>] ELSE Refuse(s)
Colorless(s) == [s EXCEPT !.bad = s.bad \/ Level(s) \in s.nocolor, !.nocolor = s.nocolor \cup {Level(s)}]

Opt(s, o) ==
  CASE s.raw -> Word(s, o)
  [] o = "--" -> [s EXCEPT !.raw = TRUE]
  [] o = "--no-color" -> Colorless(s)
  [] o = "--help" -> [s EXCEPT !.end = "help"]
  [] o \in {"-t", "--type"} -> IF s.cmd = "" THEN Refuse(s) ELSE [s EXCEPT !.want = TRUE]
  [] OTHER -> Refuse(s)                     \* any other dash is no expression unless it follows `--`

Read(s, a) ==
  IF s.end # "" THEN s
  ELSE IF s.want THEN IF a = <<"opt", "--help">> THEN [s EXCEPT !.end = "help"] ELSE IF a[1] # "word" THEN Refuse(s) ELSE Typed(s, a[2])
  ELSE IF a[1] = "glued" THEN IF s.cmd = "" THEN Refuse(s) ELSE Typed(s, a[2])      \* -tT, -t=T, --type=T
  ELSE IF a[1] = "opt" THEN Opt(s, a[2]) ELSE Word(s, a[2])

(* What a complete command line asks for. *)
Done(s) ==
  IF s.end # "" THEN s.end
  ELSE IF s.want \/ s.bad \/ s.cmd = "" \/ (s.cmd = "eval" /\ s.expr = <<>>) THEN "usage"
  ELSE s.cmd
TypeOf(s) == IF s.type = "" THEN "decimal" ELSE s.type

RECURSIVE ReadAll(_, _)
ReadAll(s, as) == IF as = <<>> THEN s ELSE ReadAll(Read(s, as[1]), SubSeq(as, 2, Len(as)))

(* The names a listing shows, each as often as it is registered. *)
Times(f, kind, n) ==
  CASE kind = "constants" -> IF n \in Consts(f) THEN 1 ELSE 0
  [] kind = "functions" -> IF n \in Funs(f) THEN 1 ELSE 0
  [] OTHER -> Cardinality({b \in Bins(f) : b.name = n}) + Cardinality({u \in Unas(f) : u.name = n})
Names(f, kind) == CASE kind = "constants" -> Consts(f) [] kind = "functions" -> Funs(f) [] OTHER -> {b.name : b \in Bins(f)} \cup {u.name : u \in Unas(f)}
=============================================================================
