------------------------------- MODULE Chars -------------------------------
(* Characters and names. A text or a name is a sequence of characters, each a string: itself,
   or `U+XXXX` when it is not printable ASCII. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Uni == JsonDeserialize("data/unicode.json")

LowerTab == Uni.fold
LowerDom == DOMAIN Uni.fold
SpaceTab == {Uni.space[i] : i \in DOMAIN Uni.space}
ControlTab == {Uni.control[i] : i \in DOMAIN Uni.control}

Digit   == {"0","1","2","3","4","5","6","7","8","9"}
Lower   == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper   == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Letter  == Lower \cup Upper
IdStart == Letter \cup {"_"}
IdPart  == IdStart \cup Digit
OpChar  == {"~","`","!","@","#","$","%","^","&","*","-","+","_",":",";","\"","'","|","\\","?",".","<",">","/","="}
Open    == {"(","[","{"}
Close   == {")","]","}"}
Match   == [c \in Open |-> CASE c = "(" -> ")" [] c = "[" -> "]" [] c = "{" -> "}"]

AsciiSame == Lower \cup Digit \cup OpChar \cup Open \cup Close \cup {"_", ",", " "}

IsSpace(c) == c \in SpaceTab

IsControl(c) == c \in ControlTab

(* The lower case of one character, as a sequence (a few characters have two). *)
LowerOf(c) == IF c \in AsciiSame THEN <<c>> ELSE IF c \in LowerDom THEN LowerTab[c] ELSE <<c>>
(* Two names are the same up to letter case iff their keys are equal. *)
Key(name) == [i \in DOMAIN name |-> LowerOf(name[i])]
SameName(a, b) == Len(a) = Len(b) /\ Key(a) = Key(b)

(* Rng(s): the elements of a sequence *)
Rng(s) == {s[i] : i \in DOMAIN s}
=============================================================================
