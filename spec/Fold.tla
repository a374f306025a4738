-------------------------------- MODULE Fold --------------------------------
(* Case-insensitive keys. Two keys are the same iff they are character by character the same up to
   letter case; a table holds one value per class of keys. *)
EXTENDS Chars, Integers

Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

(* the table: a set of <<key, value>> *)
At(t, w) == {e \in t : e[1] = Key(w)}
Insert(t, w, v) == (t \ At(t, w)) \cup {<<Key(w), v>>}
Remove(t, w) == t \ At(t, w)
Value(t, w) == IF At(t, w) = {} THEN <<>> ELSE <<(CHOOSE e \in At(t, w) : TRUE)[2]>>
OneEach(t) == \A e, f \in t : e[1] = f[1] => e = f
=============================================================================
