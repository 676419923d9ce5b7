------------------------------ MODULE HexCode ------------------------------
(* Hexadecimal text of byte sequences. *)
EXTENDS Integers, Sequences
DigitOf(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> -1
LowDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
AllDigits(s) == \A i \in 1..Len(s) : DigitOf(s[i]) >= 0
AllLowDigits(s) == \A i \in 1..Len(s) : DigitOf(s[i]) >= 0 /\ s[i] \notin 65..70
Encode(b) == [i \in 1..(2 * Len(b)) |-> LET c == b[(i + 1) \div 2] IN LowDigit(IF i % 2 = 1 THEN c \div 16 ELSE c % 16)]
Decodable(s) == Len(s) % 2 = 0 /\ AllDigits(s)
Decode(s) == [i \in 1..(Len(s) \div 2) |-> 16 * DigitOf(s[2 * i - 1]) + DigitOf(s[2 * i])]
=============================================================================
