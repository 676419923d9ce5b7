------------------------------ MODULE EniOpsMC ------------------------------
(* Every short list of kinds of arguments for the operations. The kinds are represented by values; the verdict may depend
   on nothing but the documented arguments, and every list becomes a test. *)
EXTENDS EniOps, Json
CONSTANTS MaxArgs
VARIABLES name, kinds
\* stand-ins of the PEM texts of a public and a private key of eight bytes
Keys == << [pem |-> <<80>>, pub |-> 1, priv |-> 0, n |-> <<200, 0, 0, 0, 0, 0, 0, 1>>, odd |-> 0],
           [pem |-> <<83>>, pub |-> 0, priv |-> 1, n |-> <<200, 0, 0, 0, 0, 0, 0, 1>>, odd |-> 0] >>
KindNames == <<"hex", "odd", "text", "long", "empty", "pub", "priv", "int", "bool", "arr", "obj">>
ValueOfKind(k) == CASE k = "hex" -> <<"str", <<48, 65, 98, 57>>>>      \* 0Ab9
                    [] k = "odd" -> <<"str", <<55, 102, 51>>>>          \* 7f3
                    [] k = "text" -> <<"str", <<103, 104>>>>            \* gh
                    [] k = "long" -> <<"str", [i \in 1..161 |-> 48]>>
                    [] k = "empty" -> <<"str", <<>>>>
                    [] k = "pub" -> <<"str", <<80>>>>
                    [] k = "priv" -> <<"str", <<83>>>>
                    [] k = "int" -> <<"int", <<49, 50>>>>
                    [] k = "bool" -> <<"bool", 1>>
                    [] k = "arr" -> <<"arr", <<<<"str", <<48>>>>>>>>
                    [] k = "obj" -> EmptyObj
Kinds == {KindNames[i] : i \in 1..Len(KindNames)}
Args == [i \in 1..Len(kinds) |-> ValueOfKind(kinds[i])]
Init == name \in {"rsa_encrypt", "rsa_decrypt", "scrypt"} /\ kinds = <<>>
Next == Len(kinds) < MaxArgs /\ \E k \in Kinds : kinds' = Append(kinds, k) /\ UNCHANGED name
Spec == Init /\ [][Next]_<<name, kinds>>
Valid == ValidArgs(name, Args, Keys)
Needed == IF name = "scrypt" THEN 1 ELSE 2
\* extra arguments change nothing; fewer than needed are never enough
ExtraIgnored == Len(kinds) > Needed => Valid = ValidArgs(name, SubSeq(Args, 1, Needed), Keys)
Enough == Valid => Len(kinds) >= Needed /\ \A i \in 1..Needed : IsStr(Args[i])
\* what the operations accept they charge for, never more than the key or the longest text allows
Charged == Valid => GasOf(name, Args, Keys) \in 0..800 /\ GasOf(name, Args, Keys) % 10 = 0
Emit == PrintT("T@" \o ToJson([name |-> name, kinds |-> kinds, ok |-> IF Valid THEN 1 ELSE 0]))
=============================================================================
