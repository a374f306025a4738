----------------------------- MODULE TraceLimit -----------------------------
(* Recorded requests of clients to the real server, in a proposed order of admission: first (of its client), the moments
   (ms) before it was sent and after its answer was read, the status, what the headers say, whether the answer is empty.
   The window's end is known to lie between lo and hi. A request is legal if it can be ordered so, in time and by Limit. *)
EXTENDS Limit, Json, IOUtils, TLC
CONSTANTS Quota, Window
Recs == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACE))
VARIABLES l, w, late
NoWindow == [open |-> FALSE, left |-> 0, lo |-> 0, hi |-> 0]
Max2(a, b) == IF a > b THEN a ELSE b

MayStay(v, r) == v.open /\ r.inv < v.hi
MayOpen(v, r) == ~v.open \/ r.resp >= v.lo
Fresh(r) == r.code # 429 /\ r.remaining = Quota - 1
After(v, r) ==
  IF r.code = 0 THEN v
  ELSE IF Fresh(r) /\ MayOpen(v, r) THEN [open |-> TRUE, left |-> Quota - 1, lo |-> r.inv + Window, hi |-> r.resp + Window]
  ELSE IF MayStay(v, r) THEN [v EXCEPT !.left = IF v.left > 0 THEN v.left - 1 ELSE 0]
  ELSE [open |-> TRUE, left |-> Quota - 1, lo |-> r.inv + Window, hi |-> r.resp + Window]
Problem(v, m, r) ==
  IF r.code = 0 THEN {"is not answered"}
  ELSE (IF r.resp < m THEN {"is counted after a request that was made after its answer"} ELSE {}) \cup
       (IF r.limit = Quota THEN {} ELSE {"does not tell the limit"}) \cup
       (IF Fresh(r) /\ MayOpen(v, r) THEN {}
        ELSE IF ~MayStay(v, r) THEN IF r.code = 429 THEN {"is refused in a new window"} ELSE {"does not open a new window"}
        ELSE IF v.left = 0
             THEN (IF r.code = 429 THEN {} ELSE {"is admitted beyond the quota"}) \cup (IF r.code = 429 /\ ~r.empty THEN {"is refused and yet answered"} ELSE {}) \cup
                  (IF r.code = 429 /\ r.remaining # 0 THEN {"is refused although requests are said to remain"} ELSE {})
             ELSE IF r.code = 429 THEN {"is refused within the quota"}
             ELSE IF r.remaining = v.left - 1 THEN {} ELSE {"is told another number of remaining requests"})
(* the seconds that are said to be left of the window (of which v is the window after the request) *)
Untimely(v, r) ==
  IF r.code = 0 THEN {}
  ELSE IF 1000 * r.reset >= v.lo - r.resp - 1000 /\ 1000 * r.reset <= v.hi - r.inv + 1000 THEN {} ELSE {"is told another end of the window"}
V(r) == IF r.first THEN NoWindow ELSE w
M(r) == IF r.first THEN 0 ELSE late
Init == l = 0 /\ w = NoWindow /\ late = 0
Next == /\ l < Len(Recs) /\ l' = l + 1
        /\ LET r == Recs[l + 1] p == Problem(V(r), M(r), r) \cup Untimely(After(V(r), r), r) IN
           /\ w' = After(V(r), r) /\ late' = Max2(M(r), r.inv)
           /\ p = {} \/ PrintT("BAD " \o ToString(l + 1) \o " " \o ToString(p))
Spec == Init /\ [][Next]_<<l, w, late>>
Conforms == l \in 0..Len(Recs)
=============================================================================
