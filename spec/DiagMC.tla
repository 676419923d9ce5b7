------------------------------- MODULE DiagMC -------------------------------
(* Every short history of exceptions; each finished history becomes a test. *)
EXTENDS Diag, Json
CONSTANTS Slots, MaxLen, Values
VARIABLES s, h
vars == <<s, h>>
Init == s = [i \in 1..Slots |-> <<>>] /\ h = <<>>
Do(o, d, a, x) == /\ Enabled(s, o, d, a) /\ s' = After(s, o, d, a, x)
                  /\ h' = Append(h, <<o, ToString(d), ToString(a)>> \o x)
Next == /\ Len(h) < MaxLen
        /\ \E d, a \in 1..Slots :
             \/ a = d /\ \E x \in Values : Do("make", d, a, x)
             \/ a = d /\ Do("drop", d, a, <<>>)
             \/ a # d /\ \E o \in {"copy", "asg", "move", "cap"} : Do(o, d, a, <<>>)
             \/ a = d /\ Do("cap", d, a, <<>>)
             \/ a # d /\ \E o \in {"thr", "base", "nest"} : h # <<>> /\ h[Len(h)][1] \in {"cap", "copy"} /\ Do(o, d, a, <<>>)
Spec == Init /\ [][Next]_vars
TypeOK == \A i \in 1..Slots : s[i] = <<>> \/ s[i] \in IdSet \X KindSet
Messages == Distinct
Emit == Len(h) = MaxLen => PrintT("T@" \o ToJson([h |-> h, s |-> s]))
=============================================================================
