------------------------------- MODULE AllocMC -------------------------------
(* Every short history of two blocks of up to two objects; each finished history becomes a test. *)
EXTENDS Alloc, TLC, Json
CONSTANTS MaxLen, Sorts
VARIABLES b, h
vars == <<b, h>>
Init == b = [k \in 1..2 |-> None] /\ h = <<>>
E(op, k, n, i, x, kind) == [op |-> op, b |-> k, n |-> n, i |-> i, x |-> x, kind |-> kind]
Do(e) == Enabled(b, e) /\ b' = After(b, e) /\ h' = Append(h, e)
Next == /\ Len(h) < MaxLen
        /\ \E k \in 1..2 :
             \/ \E n \in 0..2, s \in Sorts : Do(E("new", k, n, 0, 0, s))
             \/ \E i \in 1..2, op \in {"con", "val", "des", "set"} : Do(E(op, k, 0, i, 6 + i, ""))
             \/ \E i, x \in 1..2 : Do(E("cpo", k, 0, i, x, ""))
             \/ Do(E("del", k, 0, 0, 0, ""))
Spec == Init /\ [][Next]_vars
TypeOK == \A k \in 1..2 : b[k] = None \/ (b[k].kind \in Kinds /\ \A i \in 1..Len(b[k].objs) : b[k].objs[i] >= Raw)
Counts == Living(b) >= 0 /\ (\A k \in 1..2 : b[k] = None) => Living(b) = 0
Emit == Len(h) = MaxLen => PrintT("T@" \o ToJson([h |-> h]))
==============================================================================
