------------------------------ MODULE EniDetMC ------------------------------
(* Histories of calls in one process. Answers of the model may be any function of the question; with the memory of the
   specification two calls with the same question never differ, whatever was called between them. *)
EXTENDS EniDet, Json, TLC
CONSTANTS Queries, Length
VARIABLES h, memo
Answers == {"a", "b"}
Init == h = <<>> /\ memo = Fresh(Queries)
Ask(q) == \E ans \in {IF q % 2 = 0 THEN "a" ELSE "b"} : /\ Consistent(memo, q, ans) /\ memo' = Remember(memo, q, ans)
                                                       /\ h' = Append(h, q)
Next == Len(h) < Length /\ \E q \in 1..Queries : Ask(q)
Spec == Init /\ [][Next]_<<h, memo>>
Function == \A q \in 1..Queries : memo[q] # None <=> \E i \in 1..Len(h) : h[i] = q
Emit == Len(h) = Length => PrintT("T@" \o ToJson([h |-> h]))
=============================================================================
