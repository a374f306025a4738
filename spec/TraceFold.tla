----------------------------- MODULE TraceFold ------------------------------
EXTENDS Fold
Recs == TLCEval(ndJsonDeserialize(IOEnv.VH_TRACE))
(* characters that this specification's Unicode tables do not know *)
Unknown == LET u == JsonDeserialize(IOEnv.VH_UNKNOWN) IN {u[i] : i \in DOMAIN u}
VARIABLES l, n
Init == l = 0 /\ n = 0
Bad(what) == PrintT("BAD " \o ToString(l + 1) \o " " \o what)

Matrix(r) ==
  LET w == r.words
      keys == TLCEval([i \in DOMAIN w |-> Key(w[i])])
      same == TLCEval([i \in DOMAIN w |-> {j \in DOMAIN w : keys[i] = keys[j]}])
  IN /\ \A m \in DOMAIN r.eq : \A i \in DOMAIN w : Rng(r.eq[m][i]) = same[i] \/ Bad("equality " \o ToString(m) \o " of word " \o ToString(i))
     /\ \A m \in DOMAIN r.cmp :
          LET c == r.cmp[m]
              rank == TLCEval([i \in DOMAIN w |-> Cardinality({j \in DOMAIN w : c[i][j] = 1})])
          IN \A i \in DOMAIN w :
               \/ \A j \in DOMAIN w : c[i][j] = Sign(rank[i] - rank[j]) /\ (c[i][j] = 0 <=> j \in same[i])
               \/ Bad("order " \o ToString(m) \o " of word " \o ToString(i))
     /\ \A m \in DOMAIN r.hash : \A i \in DOMAIN w : same[i] \subseteq Rng(r.hash[m][i]) \/ Bad("hash " \o ToString(m) \o " of word " \o ToString(i))

Table(r) ==
  LET keys == TLCEval([i \in DOMAIN r.table |-> Key(r.table[i].w)])
      RECURSIVE Run(_, _)
      Run(i, t) == IF i > Len(r.table) THEN TRUE ELSE
        LET o == r.table[i]
            a == TLCEval({e \in t : e[1] = keys[i]})
            t2 == TLCEval(CASE o.op = "insert" -> (t \ a) \cup {<<keys[i], o.v>>} [] o.op = "get" -> t [] o.op = "remove" -> t \ a)
            v == IF a = {} THEN <<>> ELSE <<(CHOOSE e \in a : TRUE)[2]>>
            s == Cardinality(t2)
        IN IF \A m \in DOMAIN r.res[i] : r.res[i][m] = <<v, s>> THEN Run(i + 1, t2) ELSE Bad("table at " \o ToString(i))
  IN Run(1, {})

Class(r) == LET k == Rng(r.chars) \ Unknown IN
  \/ Cardinality({LowerOf(a) : a \in k}) <= 1
  \/ Bad("class")

Next ==
  /\ l < Len(Recs) /\ l' = l + 1
  /\ LET r == Recs[l + 1] IN
     /\ CASE "words" \in DOMAIN r -> TRUE = Matrix(r) /\ n' = n
        [] "table" \in DOMAIN r -> TRUE = Table(r) /\ n' = n
        [] r.kind = "class" -> TRUE = Class(r) /\ LET k == Cardinality(Rng(r.chars) \ Unknown) IN n' = IF k = 0 THEN n ELSE n + k - 1
        [] r.kind = "rest" ->
             \* all merges were recorded before: exactly one class per folded character
             LET merged == {c \in LowerDom : c \notin Unknown /\ Len(LowerTab[c]) = 1 /\ LowerTab[c][1] \notin Unknown}
             IN n' = 0 /\ (n = Cardinality(merged) \/ Bad("characters that are not told apart, or are: " \o ToString(<<n, Cardinality(merged)>>)))
Spec == Init /\ [][Next]_<<l, n>>
Conforms == TRUE
=============================================================================
