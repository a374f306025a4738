------------------------------- MODULE MCCli -------------------------------
(* Every command line up to Max arguments over a small alphabet; each is written out with what it asks for. *)
EXTENDS Cli, Json, IOUtils, CSV
CONSTANTS Max
OutFile == IOEnv.VH_OUT
Exprs == {"1+2", "-3", "constants", "float", "1/0"}
Args == {<<"word", w>> : w \in Commands \cup Exprs \cup {"Float"}}
        \cup {<<"opt", o>> : o \in {"-t", "--type", "--no-color", "--", "-3", "--help"}}
        \cup {<<"glued", t>> : t \in {"binary", "nope"}}
ArgsOk == {a \in Args : ~(a[1] = "word" /\ a[2] = "-3")}
VARIABLES args, st
vars == <<args, st>>
Init == args = <<>> /\ st = Start
Next == /\ Len(args) < Max /\ st.end = ""
        /\ \E a \in ArgsOk : ~(st.raw /\ a[1] = "glued") /\ args' = Append(args, a) /\ st' = Read(st, a)
Spec == Init /\ [][Next]_vars
Emitted == CSVWrite("%1$s", <<ToJson([args |-> args, ask |-> Done(st), type |-> TypeOf(st), expr |-> st.expr])>>, OutFile)

Folds == st = ReadAll(Start, args)
(* Where an option stands among the arguments of its command is all one; nothing is lost or invented. *)
Swap(i) == [args EXCEPT ![i] = args[i + 1], ![i + 1] = args[i]]
Free(i) == /\ args[i] = <<"opt", "--no-color">> /\ args[i + 1] \notin {<<"opt", x>> : x \in {"--", "--help"}}
           /\ LET b == ReadAll(Start, SubSeq(args, 1, i - 1)) IN b.cmd # "" /\ ~b.raw /\ ~b.want /\ b.end = ""
           /\ LET e == ReadAll(Start, SubSeq(args, 1, i + 1)) IN e.end = "" /\ ~e.want
Order == \A i \in 1..(Len(args) - 1) : Free(i) => LET o == ReadAll(Start, Swap(i)) IN Done(o) = Done(st) /\ o.expr = st.expr /\ o.type = st.type
Sound == Done(st) = "eval" => /\ \E i \in DOMAIN args : args[i][2] = st.expr[1]
                              /\ st.type = "" \/ st.type \in Types
Dashes == st.expr # <<>> /\ st.expr[1] = "-3" => \E i \in DOMAIN args : args[i] = <<"opt", "--">>
=============================================================================
