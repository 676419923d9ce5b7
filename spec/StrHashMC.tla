------------------------------ MODULE StrHashMC ------------------------------
(* All strings over a small alphabet up to a length, each with its hashes as one test; the filter is sound on all
   pairs of a string and its substrings. *)
EXTENDS StrHash, TLC, Json
CONSTANTS Alphabet, MaxLen
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c)
Spec == Init /\ [][Next]_s
Emit == PrintT("T@" \o ToJson([s |-> s, h |-> AllHashes(s)]))
FilterSound == \A a \in 1..Len(s), b \in 0..Len(s) : MayInclude(SubSeq(s, a, b), s)
(* published values of the general-purpose hashes *)
ASSUME Hash("DJB", <<>>) = <<0, 5381>>
ASSUME Hash("DJB", <<97>>) = OfInt(5381 * 33 + 97)
ASSUME Hash("SDBM", <<97, 98>>) = Add(Mul(<<0, 97>>, <<1, 63>>), <<0, 98>>)   \* c + h * 65599
ASSUME Hash("BKDR", <<97, 98>>) = OfInt(97 * 131 + 98)
ASSUME Hash("ELF", <<97>>) = <<0, 97>> /\ Hash("PJW", <<97, 98>>) = OfInt(97 * 16 + 98)
=============================================================================
