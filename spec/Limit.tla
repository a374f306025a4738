------------------------------- MODULE Limit -------------------------------
(* One client's window: closed, or open until a moment with so many requests left. *)
EXTENDS Integers, Sequences, FiniteSets
Closed == [open |-> FALSE, left |-> 0, end |-> 0]

(* A request at moment t: the window afterwards, and whether it is admitted. *)
Live(w, t) == w.open /\ t < w.end
Opened(Q, W, t) == [open |-> TRUE, left |-> Q, end |-> t + W]
Request(Q, W, w, t) ==
  LET v == IF Live(w, t) THEN w ELSE Opened(Q, W, t) IN
  [w |-> [v EXCEPT !.left = IF v.left > 0 THEN v.left - 1 ELSE 0], ok |-> v.left > 0]
=============================================================================
