------------------------------ MODULE MCServer ------------------------------
(* Connections, each served by its own task: requests are sent (several may wait on one connection), taken up in order,
   their variables set one by one in a context, evaluated, answered, and the answers read. The tasks run in any order.
   Kept = TRUE is a server that keeps the context from one request to the next. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Conns, Total, Ahead, Kept, Emit
OutFile == IOEnv.VH_OUT

(* The menu: what is set, and the name read ("" reads none, "!" fails inside, "?" is malformed). *)
Menu == {[id |-> "set x", set |-> << <<"x", 1>> >>, read |-> "x"], [id |-> "set x again", set |-> << <<"x", 2>>, <<"y", 3>> >>, read |-> "x"],
         [id |-> "read x", set |-> <<>>, read |-> "x"], [id |-> "read y", set |-> << <<"x", 4>> >>, read |-> "y"],
         [id |-> "fail", set |-> << <<"y", 5>> >>, read |-> "!"], [id |-> "malformed", set |-> <<>>, read |-> "?"],
         [id |-> "plain", set |-> <<>>, read |-> ""]}
Names == {"x", "y"}
Empty == [n \in Names |-> 0]
Last1(set, n) == LET is == {i \in DOMAIN set : set[i][1] = n} IN IF is = {} THEN 0 ELSE set[CHOOSE i \in is : \A j \in is : j <= i][2]
Eval(ctx, r) == CASE r.read = "?" -> "400" [] r.read = "!" -> "error" [] r.read = "" -> "plain" [] ctx[r.read] = 0 -> "error" [] OTHER -> ToString(ctx[r.read])
Alone(r) == Eval([n \in Names |-> Last1(r.set, n)], r)      \* what the request is answered when it is the only one there is

VARIABLES sent, queue, task, wire, got, kept, hist
vars == <<sent, queue, task, wire, got, kept, hist>>
Idle == [at |-> "idle", ctx |-> Empty, i |-> 0]
Init == /\ sent = [c \in Conns |-> <<>>] /\ queue = [c \in Conns |-> <<>>] /\ task = [c \in Conns |-> Idle]
        /\ wire = [c \in Conns |-> <<>>] /\ got = [c \in Conns |-> <<>>] /\ kept = Empty /\ hist = <<>>
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN Len(sent[c]) + Sum(S \ {c})
Note(e) == hist' = IF Emit THEN Append(hist, e) ELSE hist

Send(c, r) == /\ Sum(Conns) < Total /\ Len(sent[c]) - Len(got[c]) < Ahead
              /\ sent' = [sent EXCEPT ![c] = Append(@, r)] /\ queue' = [queue EXCEPT ![c] = Append(@, r)]
              /\ Note(<<"send", c, r.id>>) /\ UNCHANGED <<task, wire, got, kept>>
Take(c) == /\ task[c].at = "idle" /\ queue[c] # <<>>
           /\ task' = [task EXCEPT ![c] = [at |-> IF queue[c][1].read = "?" THEN "eval" ELSE "set", ctx |-> IF Kept THEN kept ELSE Empty, i |-> 1]]
           /\ UNCHANGED <<sent, queue, wire, got, kept, hist>>
Set(c) == /\ task[c].at = "set"
          /\ LET t == task[c] r == queue[c][1] IN
             IF t.i > Len(r.set) THEN task' = [task EXCEPT ![c].at = "eval"] /\ UNCHANGED kept
             ELSE /\ task' = [task EXCEPT ![c].ctx[r.set[t.i][1]] = r.set[t.i][2], ![c].i = t.i + 1]
                  /\ kept' = IF Kept THEN [kept EXCEPT ![r.set[t.i][1]] = r.set[t.i][2]] ELSE kept
          /\ UNCHANGED <<sent, queue, wire, got, hist>>
Reply(c) == /\ task[c].at = "eval"
            /\ wire' = [wire EXCEPT ![c] = Append(@, Eval(task[c].ctx, queue[c][1]))]
            /\ queue' = [queue EXCEPT ![c] = Tail(@)] /\ task' = [task EXCEPT ![c] = Idle]
            /\ UNCHANGED <<sent, got, kept, hist>>
Recv(c) == /\ wire[c] # <<>>
           /\ got' = [got EXCEPT ![c] = Append(@, wire[c][1])] /\ wire' = [wire EXCEPT ![c] = Tail(@)]
           /\ Note(<<"recv", c, "">>) /\ UNCHANGED <<sent, queue, task, kept>>
Serve(c) == Take(c) \/ Set(c) \/ Reply(c)
Next == \E c \in Conns : (\E r \in Menu : Send(c, r)) \/ Serve(c) \/ Recv(c)
Spec == Init /\ [][Next]_vars /\ \A c \in Conns : WF_vars(Serve(c)) /\ WF_vars(Recv(c))

(* When only the client's events are of interest, everything is served as soon as it is sent. *)
NextEager == IF \E c \in Conns : queue[c] # <<>> THEN \E c \in Conns : queue[c] # <<>> /\ (\A d \in Conns : d < c => queue[d] = <<>>) /\ Serve(c)
             ELSE \E c \in Conns : (\E r \in Menu : Send(c, r)) \/ Recv(c)
SpecEager == Init /\ [][NextEager]_vars
Complete == Sum(Conns) = Total /\ \A c \in Conns : Len(got[c]) = Len(sent[c])
Emitted == Complete /\ Emit => CSVWrite("%1$s", <<ToJson([hist |-> hist, got |-> got])>>, OutFile)

Isolated == \A c \in Conns : \A i \in DOMAIN got[c] : got[c][i] = Alone(sent[c][i])
InOrder == \A c \in Conns : Len(got[c]) + Len(wire[c]) + Len(queue[c]) = Len(sent[c])
AllAnswered == \A c \in Conns : \A n \in 1..Total : (Len(sent[c]) = n) ~> (Len(got[c]) >= n)
=============================================================================
