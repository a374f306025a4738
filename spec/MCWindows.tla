----------------------------- MODULE MCWindows -----------------------------
(* One client over a few windows: how many requests it makes at each tick, and how many of them Limit admits. Written out. *)
EXTENDS Limit, TLC, Json, IOUtils, CSV
CONSTANTS Quota, Window, Ticks, Sizes
OutFile == IOEnv.VH_OUT
VARIABLES now, w, plan
vars == <<now, w, plan>>
Init == now = 0 /\ w = Closed /\ plan = <<>>
RECURSIVE Many(_, _, _, _)
Many(n, v, t, ok) == IF n = 0 THEN [w |-> v, ok |-> ok] ELSE LET r == Request(Quota, Window, v, t) IN Many(n - 1, r.w, t, ok + (IF r.ok THEN 1 ELSE 0))
Next == /\ now < Ticks
        /\ \E n \in Sizes : LET m == Many(n, w, now, 0) IN w' = m.w /\ plan' = Append(plan, [n |-> n, ok |-> m.ok])
        /\ now' = now + 1
Spec == Init /\ [][Next]_vars
Emitted == now = Ticks => CSVWrite("%1$s", <<ToJson(plan)>>, OutFile)
RECURSIVE Total(_, _)
Total(i, j) == IF i > j THEN 0 ELSE plan[i].ok + Total(i + 1, j)
Fair == /\ \A i \in DOMAIN plan : plan[i].ok <= Quota /\ (plan[i].ok < plan[i].n => w.open)
        /\ \A i \in DOMAIN plan : i + Window - 1 \in DOMAIN plan => Total(i, i + Window - 1) <= 2 * Quota
=============================================================================
