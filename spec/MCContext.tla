------------------------------ MODULE MCContext ------------------------------
(* All histories of MaxLen operations over a small menu: the invariants of a context, atomicity
   of refusals and isolation of clones. Every complete history is written out to be replayed. *)
EXTENDS Context, Integers, CSV

CONSTANTS MaxLen, Emit
Menu == JsonDeserialize(IOEnv.VH_MENU)      \* [cfg |-> configuration, ops |-> operations]
OutFile == IOEnv.VH_OUT

VARIABLES world, hist
vars == <<world, hist>>
Init == world = <<Fresh(Menu.cfg)>> /\ hist = <<>>

Dump(st) == [vars |-> SetToSeq(st.vars), consts |-> SetToSeq({<<FlattenSeq(c[1]), c[2]>> : c \in st.consts}),
             fns |-> SetToSeq({<<FlattenSeq(f.key), f.id>> : f \in st.fns}), unas |-> SetToSeq({<<FlattenSeq(f.key), f.id>> : f \in st.unas}),
             bins |-> SetToSeq({<<FlattenSeq(f.key), f.id>> : f \in st.bins})]
Do(k) ==
  LET op == Menu.ops[k] IN
  /\ Len(hist) < MaxLen
  /\ op.i \in DOMAIN world /\ (op.op = "clone" => Len(world) < 2)
  /\ LET a == Apply(world, op) IN world' = a.world /\ hist' = Append(hist, <<k, a.res, a.world>>)
Next == \E k \in DOMAIN Menu.ops : Do(k)
Spec == Init /\ [][Next]_vars

Sound == \A i \in DOMAIN world : NeverBoth(world[i]) /\ OneEach(world[i])
(* a refusal changes nothing, an operation on one context leaves the others alone, nothing is lost *)
LastOp == hist'[Len(hist')]
Atomic == [][/\ (LastOp[2].k = "err" => world' = world)
             /\ \A i \in DOMAIN world : Grows(world[i], world'[i]) /\ (i # Menu.ops[LastOp[1]].i => world'[i] = world[i])
             /\ Menu.ops[LastOp[1]].op \in {"eval", "get"} => world' = world]_vars
Emitted ==
  Emit /\ Len(hist) = MaxLen =>
    CSVWrite("%1$s", <<ToJson([cfg |-> Menu.cfg, ops |-> [j \in DOMAIN hist |->
       [after |-> [i \in DOMAIN hist[j][3] |-> Dump(hist[j][3][i])], res |-> hist[j][2]] @@ Menu.ops[hist[j][1]]]])>>, OutFile)
=============================================================================
