------------------------------ MODULE MCLimit ------------------------------
(* Requests of several clients, handled by concurrent workers that share one table of windows; windows that have ended
   are swept away when a client opens one. Atomic = FALSE is a worker that reads its client's window in one step and
   writes it back in another. `gate` is what Limit says, at the moment a request is decided. *)
EXTENDS Limit, TLC
CONSTANTS Clients, Workers, Quota, Window, Horizon, Requests, Atomic
VARIABLES now, table, job, gate, fate, count, made
vars == <<now, table, job, gate, fate, count, made>>
None == [at |-> "idle", client |-> 0, seen |-> Closed]
Init == /\ now = 0 /\ table = [c \in Clients |-> Closed] /\ job = [k \in Workers |-> None] /\ gate = [c \in Clients |-> Closed]
        /\ fate = "" /\ count = [c \in Clients |-> <<>>] /\ made = 0
Tick == now < Horizon /\ now' = now + 1 /\ UNCHANGED <<table, job, gate, fate, count, made>>
Arrive(k, c) == /\ job[k].at = "idle" /\ made < Requests /\ made' = made + 1
                /\ job' = [job EXCEPT ![k] = [at |-> "new", client |-> c, seen |-> Closed]]
                /\ UNCHANGED <<now, table, gate, fate, count>>
Swept(t, c) == [d \in Clients |-> IF d # c /\ table[d].open /\ ~Live(table[d], t) THEN Closed ELSE table[d]]
(* The decision: the table as the worker leaves it, against Limit. *)
Decide(k, seen) ==
  LET c == job[k].client r == Request(Quota, Window, seen, now) g == Request(Quota, Window, gate[c], now) IN
  /\ table' = [(IF Live(seen, now) THEN table ELSE Swept(now, c)) EXCEPT ![c] = r.w]
  /\ gate' = [gate EXCEPT ![c] = g.w]
  /\ fate' = IF r.ok = g.ok /\ r.w.left = g.w.left THEN fate ELSE "differs"
  /\ count' = [count EXCEPT ![c] = Append(@, <<now, r.ok>>)]
  /\ job' = [job EXCEPT ![k] = None]
Read(k) == /\ job[k].at = "new"
           /\ IF Atomic THEN Decide(k, table[job[k].client]) /\ UNCHANGED <<now, made>>
              ELSE /\ job' = [job EXCEPT ![k].at = "read", ![k].seen = table[job[k].client]] /\ UNCHANGED <<now, table, gate, fate, count, made>>
Write(k) == job[k].at = "read" /\ Decide(k, job[k].seen) /\ UNCHANGED <<now, made>>
Next == Tick \/ \E k \in Workers : (\E c \in Clients : Arrive(k, c)) \/ Read(k) \/ Write(k)
Spec == Init /\ [][Next]_vars /\ \A k \in Workers : WF_vars(Read(k) \/ Write(k))

AsSpecified == fate = ""
(* Said without windows: no admitted request is the first of more than Quota within Window moments of an opening one. *)
Admitted(c) == SelectSeq(count[c], LAMBDA x : x[2])
Bounded == \A c \in Clients : LET a == Admitted(c) IN \A i \in DOMAIN a : i + 2 * Quota \in DOMAIN a => a[i + 2 * Quota][1] - a[i][1] >= Window
(* A refusal has Quota admissions before it, less than a Window ago. *)
Earned == \A c \in Clients : \A i \in DOMAIN count[c] : ~count[c][i][2] =>
            Cardinality({j \in 1..(i - 1) : count[c][j][2] /\ count[c][i][1] - count[c][j][1] < Window}) >= Quota
Decided == \A k \in Workers : [](job[k].at # "idle" => <>(job[k].at = "idle"))
=============================================================================
