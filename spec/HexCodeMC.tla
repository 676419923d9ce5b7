----------------------------- MODULE HexCodeMC -----------------------------
(* Every short text over digits, letters at the borders of the ranges and other bytes: decoding is strict and inverts
   encoding. *)
EXTENDS HexCode, Json, TLC
CONSTANTS MaxLen
VARIABLES s
Alphabet == {0, 47, 48, 57, 58, 64, 65, 70, 71, 96, 97, 102, 103, 255}
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c)
Spec == Init /\ [][Next]_s
Lower(c) == IF c \in 65..70 THEN c + 32 ELSE c
\* texts with digits only are exactly the encodings up to letter case; as bytes, every text survives the round trip
Inverse == /\ Decodable(Encode(s)) /\ Decode(Encode(s)) = s /\ AllLowDigits(Encode(s))
           /\ Decodable(s) => Encode(Decode(s)) = [i \in 1..Len(s) |-> Lower(s[i])]
Strict == Decodable(s) <=> Len(s) % 2 = 0 /\ \A i \in 1..Len(s) : s[i] \in {48, 57, 65, 70, 97, 102}
Emit == PrintT("T@" \o ToJson([s |-> s, ok |-> IF Decodable(s) THEN 1 ELSE 0, out |-> IF Decodable(s) THEN Decode(s) ELSE <<>>]))
=============================================================================
