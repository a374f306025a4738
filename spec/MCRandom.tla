------------------------------ MODULE MCRandom ------------------------------
(* The generator as a machine: it scales a raw draw k/Raw, 0 <= k < Raw, into the asked range, for a type
   that counts in steps of 1/Unit and cuts the rest off; and every behaviour of it stays inside. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Top, Raw, Unit
R == INSTANCE Random
B == INSTANCE Big WITH Base <- 10000
VARIABLES args, draws
vars == <<args, draws>>
Arg == 0..(2 * Top)
Vals(a) == [i \in DOMAIN a |-> B!Whole((a[i] - Top) * 1)]
One == B!Whole(Unit)
Init == draws = {} /\ args \in {<<>>} \cup {<<a>> : a \in Arg} \cup {<<a, b>> : a \in Arg, b \in Arg}
Abs(n) == IF n < 0 THEN -n ELSE n
Cut(n, d) == IF n < 0 THEN -((-n) \div d) ELSE n \div d          \* towards 0
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Lo == CASE Len(args) = 0 -> 0 [] Len(args) = 1 -> 0 [] OTHER -> args[1] - Top
Hi == CASE Len(args) = 0 -> Unit [] Len(args) = 1 -> args[1] - Top [] OTHER -> args[2] - Top
Draw == /\ ~R!Refused(Vals(args), TRUE)
        /\ \E k \in 0..(Raw - 1) : draws' = draws \cup {Clamp(Cut(Lo * (Raw - k) + Hi * k, Raw), Lo, Hi)}
        /\ UNCHANGED args
Spec == Init /\ [][Draw]_vars
AllInside == \A v \in draws : R!Inside(B!Whole(v), Vals(args), One)
RefusedNever == R!Refused(Vals(args), TRUE) => draws = {}
(* the whole range is within reach *)
Reach == (draws # {} /\ Hi - Lo >= 8) => \A q \in 1..4 : \E k \in 0..(Raw - 1) : R!Quarter(B!Whole(Clamp(Cut(Lo * (Raw - k) + Hi * k, Raw), Lo, Hi)), Vals(args), One) = q
=============================================================================
