------------------------------- MODULE Random -------------------------------
(* random(), random(max), random(min, max): which calls are errors, and where the draws lie. Values are
   big integers, all over one denominator d; a complex value is its two parts, each drawn on its own. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
B == INSTANCE Big WITH Base <- 10000
Bounds(args, one) == CASE Len(args) = 0 -> <<B!Zero, one>> [] Len(args) = 1 -> <<B!Zero, args[1]>> [] Len(args) = 2 -> <<args[1], args[2]>>
Refused(args, real) == ~real \/ Len(args) > 2 \/ (Len(args) = 1 /\ args[1].s < 0) \/ (Len(args) = 2 /\ B!Lt(args[2], args[1]))
Inside(v, args, one) == LET b == Bounds(args, one) IN B!Le(b[1], v) /\ (IF args = <<>> THEN B!Lt(v, b[2]) ELSE B!Le(v, b[2]))
(* which quarter of the range *)
Quarter(v, args, one) ==
  LET b == Bounds(args, one) w == B!Sub(b[2], b[1]) at == B!Mul(B!Sub(v, b[1]), B!Whole(4)) IN
  IF B!Lt(at, w) THEN 1 ELSE IF B!Lt(at, B!Mul(w, B!Whole(2))) THEN 2 ELSE IF B!Lt(at, B!Mul(w, B!Whole(3))) THEN 3 ELSE 4
Wide(args, one, least) == LET b == Bounds(args, one) IN B!Le(least, B!Sub(b[2], b[1])) /\ B!Lt(b[1], b[2])
=============================================================================
