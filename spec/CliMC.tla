-------------------------------- MODULE CliMC --------------------------------
(* All short argument vectors over a vocabulary; the reader agrees with the definition that looks at the whole vector, and
   every vector becomes a test. *)
EXTENDS Cli, Json
CONSTANTS Words, Few, MaxLen, FewLen
VARIABLES m, args
vars == <<m, args>>
Init == m = Fresh /\ args = <<>>
Next == \E w \in 1..Len(Words) : /\ Len(args) < MaxLen \/ (Len(args) < FewLen /\ \A i \in 1..Len(args) : args[i] \in Few)
                                 /\ Len(args) >= MaxLen => w \in Few
                                 /\ m' = Read(m, Words[w]) /\ args' = Append(args, w)
Spec == Init /\ [][Next]_vars
Vec == [i \in 1..Len(args) |-> Words[args[i]]]
Same == LET p == Positional(Vec) IN Good(m) <=> Len(p) = 3
SameWords == Good(m) => m.pos = Positional(Vec)
OptionsNeverCount == m.ended => \E i \in 1..Len(args) : IsDouble(Vec[i])
Emit == PrintT("T@" \o ToJson(args))
=============================================================================
